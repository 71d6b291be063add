----------------------------- MODULE GlitchTrace -----------------------------
(* F06: executions in which one read returned a wrong byte and whose outcome  *)
(* differs from the execution without it: legal only if the byte was not in   *)
(* the data or the length field of an item.                                   *)
EXTENDS Format, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)
VARIABLES tr, l, viol
vars == <<tr, l, viol>>
T == Traces[tr]
G == [w |-> T.w, r |-> T.r, p |-> T.p, n |-> T.n]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ viol = {}
(* e.same: result and image are as without the wrong read; e.img: the flash   *)
(* when the wrong byte at e.a was read                                        *)
Step == /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN viol' = (IF e.res = "panic" THEN {"panic"} ELSE IF ~e.same /\ MustMask(G, e.img, e.a) THEN {"glitch"} ELSE {}) \ Ignore
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars
Permitted == viol = {}
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
