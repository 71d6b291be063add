----------------------------- MODULE BufferTrace -----------------------------
(* Validation of histories recorded from the real BufferedQueue and          *)
(* SharedRamRing against BufferContract; same scheme as MapTrace.            *)
EXTENDS BufferContract, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)

VARIABLES tr, l, s, viol
vars == <<tr, l, s, viol>>

T == Traces[tr]
G == [cap |-> T.cap, word |-> T.word, max |-> T.max, shared |-> T.shared, vlen |-> T.vlen]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ s = S0(Traces[tr].init)
        /\ viol = IF Traces[tr].bad > 0 THEN {"access"} ELSE {}

Step == /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
           IN  /\ viol' = Viol(G, s, e) \ Ignore
               /\ s' = After(G, s, e)
        /\ l' = l + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Step]_vars

Permitted == viol = {}
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
