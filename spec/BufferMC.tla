------------------------------ MODULE BufferMC ------------------------------
(* Implementation-shaped model of SharedRamRing: a drain task that is        *)
(* interleaved with enqueues at every critical-section boundary and flash    *)
(* operation.  Every atomic step emits the event the recording harness would *)
(* record, and BufferContract judges it (invariant NoViol); the history      *)
(* invariants state the property texts directly (FIFO, nothing lost, nothing *)
(* twice, woken).  With Ticket = FALSE (no check that the drained item is    *)
(* still the oldest one), SignalFirst = TRUE (signal before the item is in), *)
(* SignalEmpty = TRUE (signal only when the buffer was empty) or Sticky =    *)
(* TRUE (a completed wait leaves the signal set) it fails.                   *)
EXTENDS BufferContract, TLC

CONSTANTS NIDS, CAP, Ticket, SignalFirst, SignalEmpty, Sticky, Faults, Calls, FlashMax
VARIABLES F, R, rem, sig, woken, pc, a, over, item, tk, first, y,   \* the task
          epc, eid, ewas,                                           \* an enqueue on another core
          next, outp, dropped, faulted,                             \* history
          s, viol
vars == <<F, R, rem, sig, woken, pc, a, over, item, tk, first, y, epc, eid, ewas, next, outp, dropped, faulted, s, viol>>
ring == <<F, R, rem>>
task == <<pc, a, over, item, tk, first, y>>

G == [cap |-> CAP, word |-> 1, max |-> 100, shared |-> TRUE, vlen |-> [v \in 1..NIDS |-> 1 + (v % 2)]]
Free == CAP - Used(G, R)

Ev(rec) == LET e == rec @@ [p |-> Len(R'), b |-> CAP - Used(G, R'), h |-> IF R' = <<>> THEN -1 ELSE G.vlen[R'[1]], c |-> F']
           IN  /\ viol' = Viol(G, s, e)
               /\ s' = After(G, s, e)
StepEv(r, x, f, yy) == Ev([o |-> "step", a |-> a', over |-> over', u |-> 200, r |-> r, x |-> x, f |-> f, y |-> yy,
                           wk |-> IF woken' THEN 1 ELSE 0, mid |-> FALSE])
\* wake-ups are only judged while the task sleeps
Wk == IF pc # "parked" THEN -1 ELSE IF woken' THEN 1 ELSE 0
NoEv == UNCHANGED <<s, viol>>

Init == /\ F = <<>> /\ R = <<>> /\ rem = 0 /\ sig = "none" /\ woken = FALSE
        /\ pc = "idle" /\ a = "drain" /\ over = FALSE /\ item = 0 /\ tk = 0 /\ first = TRUE /\ y = 0
        /\ epc = "idle" /\ eid = 0 /\ ewas = FALSE
        /\ next = 1 /\ outp = <<>> /\ dropped = {} /\ faulted = FALSE
        /\ s = S0(<<>>) /\ viol = {}

EnqVars == <<epc, eid, ewas, next>>
Hist == <<outp, dropped, faulted>>

(*** the task *************************************************************)
\* begins a call (no event: nothing is observable)
Start == /\ pc = "idle"
         /\ a' \in Calls /\ over' \in {FALSE}
         /\ pc' = IF a' \in {"wait", "wdrain"} THEN "wait" ELSE IF Reads(a') /\ R = <<>> THEN "read" ELSE "peek"
         /\ s' = Begin(s) /\ UNCHANGED viol
         /\ y' = 0
         /\ UNCHANGED <<ring, sig, woken, item, tk, first, EnqVars, Hist>>

End(r, x, f) == /\ pc' = "idle" /\ UNCHANGED <<item, tk, first, a, over, y>> /\ StepEv(r, x, f, y)

Wait == /\ pc = "wait" /\ UNCHANGED <<ring, EnqVars, Hist>>
        /\ IF sig = "set"
           THEN /\ sig' = (IF Sticky THEN "set" ELSE "none") /\ woken' = FALSE
                /\ IF a = "wait" THEN End("ok", 0, "none")
                   ELSE pc' = "peek" /\ NoEv /\ UNCHANGED <<a, over, item, tk, first, y>>
           ELSE /\ sig' = "waiting" /\ woken' = FALSE /\ pc' = "parked"
                /\ UNCHANGED <<a, over, item, tk, first, y>>
                /\ StepEv("pending", 0, "none", 0)
\* polled again: because it was woken, or for no reason
Polled == /\ pc = "parked" /\ pc' = "wait"
          /\ NoEv /\ UNCHANGED <<ring, sig, woken, a, over, item, tk, first, y, EnqVars, Hist>>
\* the future is dropped
Dropped == /\ Faults /\ pc = "parked"
           /\ UNCHANGED <<ring, sig, woken, EnqVars, Hist>>
           /\ End("cancel", 0, "cancel")
Peek == /\ pc = "peek" /\ UNCHANGED <<ring, sig, woken, EnqVars, Hist>>
        /\ IF R = <<>>
           THEN /\ UNCHANGED <<item, tk>>
                /\ IF Reads(a) THEN pc' = "read" /\ NoEv /\ UNCHANGED <<a, over, first, y>>
                   ELSE End("ok", 0, "none")
           ELSE /\ item' = R[1] /\ tk' = rem /\ pc' = "push"
                /\ NoEv /\ UNCHANGED <<a, over, first, y>>
Push == /\ pc = "push" /\ UNCHANGED <<R, rem, sig, woken, EnqVars, outp, dropped>>
        /\ \/ /\ Len(F) < FlashMax /\ F' = Append(F, item) /\ pc' = "disc" /\ y' = 1
              /\ UNCHANGED <<a, over, item, tk, first, faulted>>
              /\ StepEv("pending", 0, "none", 1)
           \/ /\ Len(F) >= FlashMax /\ UNCHANGED <<F, faulted>> /\ End("full", 0, "none")
           \/ /\ Faults /\ F' \in {F, Append(F, item)} /\ Len(F') <= FlashMax /\ faulted' = TRUE
              /\ \E f \in {"err", "cancel"} : 
                    /\ pc' = "idle" /\ UNCHANGED <<item, tk, first, a, over, y>>
                    /\ StepEv(IF f = "err" THEN "storage" ELSE "cancel", 0, f, 1)
Disc == /\ pc = "disc" /\ UNCHANGED <<F, sig, woken, EnqVars, Hist>>
        /\ IF (rem = tk \/ ~Ticket) /\ R # <<>> THEN R' = Tail(R) /\ rem' = rem + 1 ELSE UNCHANGED <<R, rem>>
        /\ IF a = "drain1" THEN End("ok", 1, "none")
           ELSE pc' = "peek" /\ UNCHANGED <<a, over, item, tk, first, y>> /\ StepEv("pending", 0, "none", 1)
\* the flash queue's own pop and peek
Read == /\ pc = "read" /\ UNCHANGED <<R, rem, sig, woken, EnqVars, dropped, faulted>>
        /\ IF F = <<>> THEN UNCHANGED <<F, outp>> /\ End("ok", 0, "none")
           ELSE IF a = "peek" THEN UNCHANGED <<F, outp>> /\ End("ok", F[1], "none")
           ELSE F' = Tail(F) /\ outp' = Append(outp, F[1]) /\ End("ok", F[1], "none")

(*** enqueue **************************************************************)
Signalled == IF sig = "waiting" THEN woken' = TRUE ELSE UNCHANGED woken
Room(v, pol) == IF pol = "err" THEN Used(G, R) + 2 + G.vlen[v] <= CAP ELSE 2 + G.vlen[v] <= CAP
\* by an interrupt: indivisible for the task
Enq(pol) ==
    /\ next <= NIDS /\ epc = "idle" /\ next' = next + 1
    /\ UNCHANGED <<F, task, epc, eid, ewas, outp, faulted>>
    /\ IF Room(next, pol)
       THEN LET k == IF pol = "err" THEN 0 ELSE MinDrop(G, R, 2 + G.vlen[next])
            IN  /\ R' = Append(Rest(R, k), next) /\ rem' = rem + k
                /\ dropped' = dropped \cup {R[j] : j \in 1..k}
                /\ IF SignalEmpty /\ R # <<>> THEN UNCHANGED <<sig, woken>> ELSE sig' = "set" /\ Signalled
                /\ Ev([o |-> "enq", v |-> next, pol |-> pol, r |-> "ok", wk |-> Wk])
       ELSE /\ UNCHANGED <<R, rem, sig, woken>> /\ dropped' = dropped \cup {next}
            /\ Ev([o |-> "enq", v |-> next, pol |-> pol, r |-> "err", wk |-> Wk])
\* by another core: the task may run between the two critical sections
EnqA == /\ UNCHANGED <<F, task, Hist>> /\ epc = "idle" /\ next <= NIDS /\ Room(next, "err") /\ next' = next + 1
        /\ eid' = next /\ epc' = "b" /\ ewas' = (R # <<>>)
        /\ IF SignalFirst THEN UNCHANGED <<R, rem>> /\ sig' = "set" /\ Signalled
           ELSE R' = Append(R, next) /\ UNCHANGED <<rem, sig, woken>>
        /\ Ev([o |-> "enqmid", v |-> next])
EnqB == /\ UNCHANGED <<F, task, next, Hist>> /\ epc = "b" /\ epc' = "idle" /\ eid' = 0 /\ ewas' = FALSE
        /\ IF SignalFirst THEN R' = Append(R, eid) /\ UNCHANGED <<rem, sig, woken>>
           ELSE /\ UNCHANGED <<R, rem>>
                /\ IF SignalEmpty /\ ewas THEN UNCHANGED <<sig, woken>> ELSE sig' = "set" /\ Signalled
        /\ Ev([o |-> "enqend", v |-> eid, r |-> "ok", wk |-> Wk])

TaskStep == Start \/ Wait \/ Peek \/ Push \/ Disc \/ Read
EnqStep == (\E pol \in {"err", "disc"} : Enq(pol)) \/ EnqA \/ EnqB
Next == TaskStep \/ Polled \/ Dropped \/ EnqStep
Spec == Init /\ [][Next]_vars

NoViol == viol = {}
All == outp \o F \o R
Ordered == faulted \/ \A i, j \in 1..Len(All) : i < j => All[i] < All[j] \/ (All[i] = All[j] /\ j = Len(outp) + Len(F) + 1)
\* the item in flight may be in flash and in the buffer for a moment
Once == faulted \/ (pc # "disc" => \A i, j \in 1..Len(All) : i # j => All[i] # All[j])
NotLost == \A v \in 1..(next - 1) : v = eid \/ v \in dropped \/ In(v, All)
View == <<F, R, rem - tk, sig, woken, pc, a, over, IF pc \in {"push", "disc"} THEN item ELSE 0, y, epc, eid, ewas, next, outp, dropped, faulted, s, viol>>

(*** liveness: a task that waits and drains for ever **********************)
\* it is only run when it has been woken
Run == Start \/ Wait \/ Peek \/ Push \/ Disc \/ Read \/ (woken /\ Polled)
LiveSpec == /\ Init /\ [][Run \/ EnqStep]_vars /\ WF_vars(Run) /\ WF_vars(EnqB)
Drained == \A v \in 1..NIDS : In(v, R) ~> ~In(v, R)
=============================================================================
