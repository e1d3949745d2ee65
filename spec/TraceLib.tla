------------------------------ MODULE TraceLib ------------------------------
\* What every trace specification shares: the recorded events and the acceptance condition.
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The trace is accepted iff the specification can take one step per recorded event. A specification with
\* no unobserved steps needs exactly Len(Trace) steps, so the depth of the search is the verdict.
TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Trace)
    \/ /\ PrintT(<<"REJECTED", TLCGet("stats").diameter>>)
       /\ PrintT(<<"STATE", TLCGet(7)>>)
       /\ FALSE

\* Remembers the specification state reached last, to be shown with a rejection.
Remember(s) == TLCSet(7, s)

\* Called with the legality of the next recorded call: a call the documentation does not allow in this state
\* is a mistake of the script, not of the code.
CheckLegal(legal, l) == legal \/ PrintT(<<"ILLEGAL", l>>)
=============================================================================
