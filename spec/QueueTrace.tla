----------------------------- MODULE QueueTrace -----------------------------
(* Validation of histories recorded from the real queue against              *)
(* QueueContract; same scheme as MapTrace.                                   *)
EXTENDS QueueContract, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)

VARIABLES tr, l, content, viol
vars == <<tr, l, content, viol>>

T == Traces[tr]
G == [hdr |-> T.hdr, word |-> T.word, cap |-> T.page - 2 * T.word, np |-> T.np,
      vlen |-> T.vlen, fifo |-> T.fifo]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ content = Traces[tr].init
        /\ viol = {}

Step == /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
           IN  /\ content' = e.c
               /\ viol' = Viol(G, content, e, e.c) \ Ignore
        /\ l' = l + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Step]_vars

Permitted == viol = {}
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
