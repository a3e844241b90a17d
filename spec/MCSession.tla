----------------------------- MODULE MCSession -----------------------------
(* Attempts for the configurations of Session *)
EXTENDS Session
A1 == <<1>>
V1 == <<10>>
A11 == <<1, 1>>
A12 == <<1, 2>>
A111 == <<1, 1, 1>>
A112 == <<1, 1, 2>>
A123 == <<1, 2, 3>>
Many == <<1, 1, 1, 2, 2, 2, 3, 3, 3>>
Crowd == [x \in 1 .. 16 |-> x]
V2 == <<10, 11>>
V29 == <<9, 11>>
V92 == <<11, 9>>
V3 == <<10, 9, 11>>
VMany == <<10, 9, 11, 11, 10, 9, 9, 10, 11>>
VCrowd == [x \in 1 .. 16 |-> IF x % 7 = 0 THEN 9 ELSE 10 + (x % 2)]
=============================================================================
