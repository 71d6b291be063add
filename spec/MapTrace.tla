------------------------------ MODULE MapTrace ------------------------------
(* Validation of histories recorded from the real map against MapContract.   *)
(* One initial state per recorded trace, one step per recorded event; the    *)
(* contents follow what a fresh instance saw, and every step must be one the *)
(* contract permits (no clause of it violated).                              *)
EXTENDS MapContract, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
\* clauses that are not judged by the property whose check runs this module
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)

VARIABLES tr, l, content, viol
vars == <<tr, l, content, viol>>

T == Traces[tr]
G == [hdr |-> T.hdr, word |-> T.word, cap |-> T.page - 2 * T.word,
      klen |-> T.klen, vlen |-> T.vlen]

\* values ever stored: needed to judge what an iteration may yield
Hist(t, n) == (IF "hist" \in DOMAIN t THEN ToSet(t.hist) ELSE {})
              \cup {<<k, t.init[k]>> : k \in DOMAIN t.init}
              \cup {<<t.ev[j].k, t.ev[j].v>> : j \in {m \in 1..n : t.ev[m].o = "store"}}

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ content = Traces[tr].init
        /\ viol = {}

Step == /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               h == IF e.o = "iter" THEN Hist(T, l) ELSE {}
           IN  /\ content' = e.c
               /\ viol' = Viol(G, content, e, e.c, h) \ Ignore
        /\ l' = l + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Step]_vars

Permitted == viol = {}
\* what TLC explores is one state per event plus the initial ones
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
