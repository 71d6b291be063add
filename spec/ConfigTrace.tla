----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TLC, Json, IOUtils, Sequences, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)
VARIABLES tr, l, viol
vars == <<tr, l, viol>>
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ viol = {}
Step == /\ l <= Len(T.ev)
        /\ viol' = Viol(T, T.who, T.ev[l]) \ Ignore
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars
Permitted == viol = {}
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
