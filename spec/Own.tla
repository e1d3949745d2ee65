-------------------------------- MODULE Own ---------------------------------
\* Ownership of reference counted objects: explicit holders, one reference member per object (edited with
\* or without the editing history), the pool of delayed releases and the history itself. An object exists
\* as long as one of them has a share in it, and is destroyed at once when the last one lets go.
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Objs       \* 1..n
VARIABLES
    st,      \* 0 not created, 1 alive, 2 destroyed
    mode,    \* how the object lets go of its reference when it is destroyed: 0 at once, 1 via the pool
    held,    \* number of explicit holds
    pool,    \* number of pending delayed releases
    ref,     \* the object it refers to, 0 = none
    cur, und, red, tx, level,   \* the history: changes [o, old, new]
    hi       \* the flag bit stored beside the count

vars == <<st, mode, held, pool, ref, cur, und, red, tx, level, hi>>
hist == <<cur, und, red, tx, level>>

In(seq, o) == \E i \in DOMAIN seq : seq[i].o = o \/ seq[i].old = o \/ seq[i].new = o
InSteps(ss, o) == \E i \in DOMAIN ss : In(ss[i], o)
Mentioned(c, u, r, t, o) == In(c, o) \/ InSteps(u, o) \/ InSteps(r, o) \/ In(t, o)

Init ==
    /\ st = [o \in Objs |-> 0] /\ mode = [o \in Objs |-> 0] /\ held = [o \in Objs |-> 0]
    /\ pool = [o \in Objs |-> 0] /\ ref = [o \in Objs |-> 0] /\ hi = [o \in Objs |-> FALSE]
    /\ cur = <<>> /\ und = <<>> /\ red = <<>> /\ tx = <<>> /\ level = 0

\* Shares outside the history.
Count(s, h, p, r, o) == h[o] + p[o] + Cardinality({x \in Objs : s[x] = 1 /\ r[x] = o})

\* Destroys everything without an owner, including what only the destroyed objects referred to. With
\* drain, entries that destroyed objects put into the pool are released as well.
RECURSIVE Settle(_, _, _, _, _, _)
Settle(s, h, p, r, Ment(_), drain) ==
    LET p2 == IF drain THEN [o \in Objs |-> 0] ELSE p
        dead == {o \in Objs : s[o] = 1 /\ Count(s, h, p2, r, o) = 0 /\ ~Ment(o)}
    IN  IF dead = {}
        THEN [s |-> s, p |-> p2, r |-> r]
        ELSE Settle([o \in Objs |-> IF o \in dead THEN 2 ELSE s[o]], h,
                    [o \in Objs |-> p2[o] + Cardinality({x \in dead : r[x] = o /\ mode[x] = 1})],
                    [o \in Objs |-> IF o \in dead THEN 0 ELSE r[o]], Ment, drain)

\* Every operation: the new shares, then what follows from them.
Become(h, p, r, c, u, rd, t, drain) ==
    LET M(o) == Mentioned(c, u, rd, t, o)
        z == Settle(st, h, p, r, M, drain)
    IN  /\ held' = h /\ st' = z.s /\ pool' = z.p /\ ref' = z.r
        /\ cur' = c /\ und' = u /\ red' = rd /\ tx' = t

New(o, m) ==
    /\ st[o] = 0
    /\ st' = [st EXCEPT ![o] = 1] /\ mode' = [mode EXCEPT ![o] = m] /\ held' = [held EXCEPT ![o] = 1]
    /\ UNCHANGED <<pool, ref, hi>> /\ UNCHANGED hist

Retain(o) ==
    /\ held[o] > 0
    /\ held' = [held EXCEPT ![o] = @ + 1]
    /\ UNCHANGED <<st, mode, pool, ref, hi>> /\ UNCHANGED hist

Release(o) ==
    /\ held[o] > 0
    /\ Become([held EXCEPT ![o] = @ - 1], pool, ref, cur, und, red, tx, FALSE)
    /\ UNCHANGED <<mode, level, hi>>

Autorelease(o) ==
    /\ held[o] > 0
    /\ held' = [held EXCEPT ![o] = @ - 1] /\ pool' = [pool EXCEPT ![o] = @ + 1]
    /\ UNCHANGED <<st, mode, ref, hi>> /\ UNCHANGED hist

Drain ==
    /\ Become(held, pool, ref, cur, und, red, tx, TRUE)
    /\ UNCHANGED <<mode, level, hi>>

Flag(o, b) ==
    /\ held[o] > 0
    /\ hi' = [hi EXCEPT ![o] = b]
    /\ UNCHANGED <<st, mode, held, pool, ref>> /\ UNCHANGED hist

\* o refers to n from now on (n = 0: to nothing), unrecorded ...
Set(o, n) ==
    /\ held[o] > 0 /\ (n # 0 => held[n] > 0)
    /\ ~Mentioned(cur, und, red, tx, o)
    /\ Become(held, pool, [ref EXCEPT ![o] = n], cur, und, red, tx, FALSE)
    /\ UNCHANGED <<mode, level, hi>>

\* ... and recorded. A new change outside a transaction discards the redoable steps.
Edit(o, n) ==
    /\ held[o] > 0 /\ (n # 0 => held[n] > 0)
    /\ LET c == <<[o |-> o, old |-> ref[o], new |-> n]>> IN
       IF level > 0
       THEN Become(held, pool, [ref EXCEPT ![o] = n], cur, und, red, tx \o c, FALSE)
       ELSE Become(held, pool, [ref EXCEPT ![o] = n], cur \o c, und, <<>>, tx, FALSE)
    /\ UNCHANGED <<mode, level, hi>>

Close ==
    /\ IF cur = <<>> THEN UNCHANGED <<cur, und>> ELSE und' = Append(und, cur) /\ cur' = <<>>
    /\ UNCHANGED <<st, mode, held, pool, ref, red, tx, level, hi>>

RECURSIVE Back(_, _)
Back(r, cs) == IF cs = <<>> THEN r ELSE Back([r EXCEPT ![cs[Len(cs)].o] = cs[Len(cs)].old], SubSeq(cs, 1, Len(cs) - 1))
RECURSIVE Forth(_, _)
Forth(r, cs) == IF cs = <<>> THEN r ELSE Forth([r EXCEPT ![cs[1].o] = cs[1].new], Tail(cs))

Undo ==
    IF cur # <<>> \/ level > 0 \/ und = <<>> THEN UNCHANGED vars
    ELSE /\ Become(held, pool, Back(ref, und[Len(und)]), cur, SubSeq(und, 1, Len(und) - 1),
                   Append(red, und[Len(und)]), tx, FALSE)
         /\ UNCHANGED <<mode, level, hi>>
Redo ==
    IF cur # <<>> \/ level > 0 \/ red = <<>> THEN UNCHANGED vars
    ELSE /\ Become(held, pool, Forth(ref, red[Len(red)]), cur, Append(und, red[Len(red)]),
                   SubSeq(red, 1, Len(red) - 1), tx, FALSE)
         /\ UNCHANGED <<mode, level, hi>>

\* Forgetting history.
Clear == Become(held, pool, ref, <<>>, <<>>, <<>>, tx, FALSE) /\ UNCHANGED <<mode, level, hi>>
ClearUndo == Become(held, pool, ref, cur, <<>>, red, tx, FALSE) /\ UNCHANGED <<mode, level, hi>>
ClearRedo == Become(held, pool, ref, cur, und, <<>>, tx, FALSE) /\ UNCHANGED <<mode, level, hi>>

Begin == level' = level + 1 /\ UNCHANGED <<st, mode, held, pool, ref, cur, und, red, tx, hi>>
Commit ==
    /\ level > 0 /\ level' = level - 1
    /\ IF level = 1
       THEN Become(held, pool, ref, cur \o tx, und, IF tx = <<>> THEN red ELSE <<>>, <<>>, FALSE)
       ELSE UNCHANGED <<st, held, pool, ref, cur, und, red, tx>>
    /\ UNCHANGED <<mode, hi>>
Rollback ==
    /\ level > 0 /\ level' = level - 1
    /\ IF level = 1
       THEN Become(held, pool, Back(ref, tx), cur, und, red, <<>>, FALSE)
       ELSE UNCHANGED <<st, held, pool, ref, cur, und, red, tx>>
    /\ UNCHANGED <<mode, hi>>

\* ---- properties
Ment(o) == Mentioned(cur, und, red, tx, o)
\* Alive exactly as long as there is an owner (a reference cycle owns itself).
AliveIffOwned == \A o \in Objs : (st[o] = 1) <=> (Count(st, held, pool, ref, o) > 0 \/ Ment(o))
NoDangling == \A o \in Objs : /\ (st[o] # 1) => (held[o] = 0 /\ pool[o] = 0 /\ ref[o] = 0)
                              /\ ref[o] # 0 => st[ref[o]] = 1
=============================================================================
