------------------------------ MODULE Histories -----------------------------
\* Is a sequence of observed events a behaviour of a specification with unobserved steps? All states it can be in are followed.
EXTENDS Integers, Sequences, TLC
CONSTANTS Tau(_), Vis(_, _)
RECURSIVE Closure(_, _)
Closure(S, new) ==
    LET more == (UNION {Tau(s) : s \in new}) \ S
    IN  IF more = {} THEN S ELSE Closure(S \cup more, more)
RECURSIVE After(_, _, _)
After(S, h, i) ==
    IF i > Len(h) THEN TRUE
    ELSE \E C \in {Closure(S, S)} : \E N \in {UNION {Vis(s, h[i]) : s \in C}} :
            IF N = {} THEN PrintT(<<"HISTORY", h, i>>) /\ FALSE ELSE After(N, h, i + 1)
Accepts(S, h) == After(S, h, 1)
=============================================================================
