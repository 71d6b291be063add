----------------------------- MODULE FlashTrace -----------------------------
(* Validation of the flash accesses recorded from the real map and queue     *)
(* against Flash; same scheme as MapTrace.  Traces start on a blank flash.   *)
EXTENDS Flash, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)

VARIABLES tr, l, dev, viol
vars == <<tr, l, dev, viol>>
T == Traces[tr]
G == [base |-> T.base, page |-> T.page, np |-> T.np, wr |-> T.wr, rd |-> T.rd, hdr |-> T.hdr]
\* the queue's iteration pops, the map's does not
Queue == "fifo" \in DOMAIN T
Ev(e) == IF e.o = "iter" THEN e @@ [pops |-> Queue, i |-> IF Queue THEN e.i ELSE <<>>]
         ELSE e @@ [pops |-> FALSE]

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ viol = {}
        /\ dev = Blank(G)
Step == /\ l <= Len(T.ev)
        /\ IF T.ev[l].o = "badflash" THEN viol' = {"range"} \ Ignore /\ UNCHANGED dev
           ELSE LET x == Op(G, dev, Ev(T.ev[l])) IN dev' = x.s /\ viol' = x.viol \ Ignore
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Permitted == viol = {}
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
