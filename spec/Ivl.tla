-------------------------------- MODULE Ivl --------------------------------
(* Sets of integers kept as sets of disjoint, non adjacent intervals <<lo, hi>>. *)
EXTENDS Integers, FiniteSets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

IvIn(S, x) == \E p \in S : p[1] <= x /\ x <= p[2]
IvCovers(S, a, b) == \E p \in S : p[1] <= a /\ b <= p[2]
IvMeets(S, a, b) == \E p \in S : p[1] <= b /\ a <= p[2]

IvAdd(S, a, b) ==
    LET touch == {p \in S : p[1] <= b + 1 /\ p[2] >= a - 1}
    IN  IF touch = {} THEN S \cup {<<a, b>>}
        ELSE (S \ touch) \cup
             {<<Min2(a, MinOf({p[1] : p \in touch})), Max2(b, MaxOf({p[2] : p \in touch}))>>}

IvDel(S, a, b) ==
    LET hit == {p \in S : p[1] <= b /\ p[2] >= a}
    IN  (S \ hit)
        \cup {<<p[1], a - 1>> : p \in {h \in hit : h[1] < a}}
        \cup {<<b + 1, p[2]>> : p \in {h \in hit : h[2] > b}}

(* The unbounded number closest to ref that is x modulo M: what a counter of limited width stands for. *)
Unwrap(x, ref, M) ==
    LET d == (x - ref) % M
    IN  IF d < M \div 2 THEN ref + d ELSE ref + d - M
=============================================================================
