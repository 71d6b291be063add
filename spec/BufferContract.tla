--------------------------- MODULE BufferContract ---------------------------
(* What a user of the RAM-buffered queue (BufferedQueue, SharedRamRing) may  *)
(* rely on: flash contents F, buffered items R, and how every observable     *)
(* event may change them.  Calls that write flash are asynchronous: they are *)
(* suspended at flash operations, and (SharedRamRing) interrupts enqueue     *)
(* items at any point, so a call shows up as a number of "step" events, the  *)
(* last of which has the result.                                             *)
(*                                                                           *)
(* Event e (after it: p buffered items, b free bytes, h length of the oldest *)
(* buffered item (-1 none, -2 not visible), c flash contents):               *)
(*  enq     v item, pol policy, r ok/err, wk wake-ups of the waiting task    *)
(*  enqmid / enqend   the same, as two events with other events in between   *)
(*  step    a call, over, u buffer length, r "pending" or the result, x value*)
(*          f fault, y number of flash suspensions, wk wake-ups, mid: seen   *)
(*          from an interrupt in the middle of the step                      *)
(*  lost    the buffer is gone (power failure, or discarded by the user)     *)
EXTENDS Integers, Sequences, FiniteSets

\* state: F flash items, R buffered items, dup: R's head is in F already (its
\* removal from the buffer is still to come), cand: items dropped by the policy
\* that the running call may still write, act: a call is running, gone: items the
\* running call removed from flash, mv: number it moved, emp: the buffer was
\* empty at some moment of the call, uns: the task has to be told of a new item,
\* park: the task waits, out: an enqueue is in progress, outin: its item is in R,
\* sig: there may have been an enqueue that no completed wait has consumed, late: (and
\* one of this call that its wait need not have consumed), midp: the task's step may be past its wait
S0(init) == [F |-> init, R |-> <<>>, dup |-> FALSE, cand |-> <<>>, act |-> FALSE, gone |-> <<>>,
             mv |-> 0, emp |-> FALSE, uns |-> FALSE, park |-> FALSE, out |-> 0, outin |-> FALSE,
             sig |-> FALSE, late |-> FALSE, midp |-> FALSE]

Rest(q, n) == SubSeq(q, n + 1, Len(q))
First(q, n) == SubSeq(q, 1, n)
RECURSIVE Used(_, _)
Used(g, q) == IF q = <<>> THEN 0 ELSE 2 + g.vlen[q[1]] + Used(g, Rest(q, 1))
RECURSIVE MinDrop(_, _, _)
MinDrop(g, q, n) == IF Used(g, q) + n <= g.cap THEN 0 ELSE 1 + MinDrop(g, Rest(q, 1), n)
In(x, q) == \E j \in 1..Len(q) : q[j] = x
RoundUp(n, w) == ((n + w - 1) \div w) * w

Interrupted(e) == e.f # "none"
Counts(g, R, e) ==
    /\ e.p = Len(R) /\ e.b = g.cap - Used(g, R)
    /\ e.h = -2 \/ e.h = IF R = <<>> THEN -1 ELSE g.vlen[R[1]]

(*** enqueue ***************************************************************)
Accepts(g, s, v, pol) ==
    IF pol = "err" THEN Used(g, s.R) + 2 + g.vlen[v] <= g.cap ELSE 2 + g.vlen[v] <= g.cap
\* the state after item v got into the buffer
Entered(g, s, v, pol) ==
    LET k == IF pol = "err" THEN 0 ELSE MinDrop(g, s.R, 2 + g.vlen[v])
        d == First(s.R, k)
    IN  [s EXCEPT !.R = Append(Rest(s.R, k), v),
                  !.dup = s.dup /\ k = 0,
                  !.cand = IF s.act THEN s.cand \o (IF s.dup /\ k > 0 THEN Rest(d, 1) ELSE d) ELSE <<>>]
\* (of an enqueue in the middle of a step it is not known on which side of the wait it is)
Told(s, e) == IF e.r # "ok" THEN s
              ELSE [s EXCEPT !.sig = TRUE, !.late = s.late \/ (s.act /\ (s.midp \/ ~s.park))]
AfterEnq(g, s, e) == LET t == IF Accepts(g, s, e.v, e.pol) THEN Entered(g, s, e.v, e.pol) ELSE s
                     IN  Told([t EXCEPT !.uns = s.uns \/ e.r = "ok"], e)
VEnq(g, s, e) ==
    (IF e.r = "panic" THEN {"result"}
     ELSE IF (e.r = "ok") # Accepts(g, s, e.v, e.pol) THEN {"policy"} ELSE {})
    \cup (IF Counts(g, AfterEnq(g, s, e).R, e) THEN {} ELSE {"count"})
    \cup (IF e.c # s.F THEN {"content"} ELSE {})
    \cup (IF s.park /\ e.r = "ok" /\ e.wk = 0 THEN {"wake"} ELSE {})
\* an enqueue seen in the middle (only of items that fit): the item is in or not yet
AfterMid(g, s, e) == IF e.p = Len(s.R) + 1
                     THEN [s EXCEPT !.R = Append(s.R, e.v), !.out = e.v, !.outin = TRUE, !.uns = TRUE]
                     ELSE [s EXCEPT !.out = e.v, !.outin = FALSE]
VMid(g, s, e) == (IF Counts(g, AfterMid(g, s, e).R, e) THEN {} ELSE {"count"})
                 \cup (IF e.c # s.F THEN {"content"} ELSE {})
AfterEnd(g, s, e) ==
    Told([s EXCEPT !.R = IF s.outin THEN s.R ELSE Append(s.R, e.v), !.out = 0, !.outin = FALSE,
              !.uns = s.uns \/ ~s.outin], e)
VEnd(g, s, e) ==
    (IF e.r # "ok" THEN {"policy"} ELSE {})
    \cup (IF Counts(g, AfterEnd(g, s, e).R, e) THEN {} ELSE {"count"})
    \cup (IF e.c # s.F THEN {"content"} ELSE {})
    \cup (IF s.park /\ e.wk = 0 THEN {"wake"} ELSE {})

(*** calls *****************************************************************)
Begin(s) == IF s.act THEN s ELSE [s EXCEPT !.act = TRUE, !.emp = s.R = <<>>, !.late = FALSE]
Reads(a) == a \in {"pop", "peek"}
Ended(e) == e.r # "pending"
Failed(e) == Ended(e) /\ e.r # "ok"

\* Ways to explain what a step did: the first k buffered items are in flash now (those the call
\* had not written before are written in this step, after candidate ci if ci > 0), d of them
\* have left the buffer, and j items have left flash.
Base(s, o) == s.F \o (IF o.ci = 0 THEN <<>> ELSE <<s.cand[o.ci]>>) \o SubSeq(s.R, (IF s.dup THEN 2 ELSE 1), o.k)
Moved(s, o) == (IF o.ci = 0 THEN 0 ELSE 1) + o.k - (IF s.dup THEN 1 ELSE 0)
Legal(g, s, e, o) ==
    LET d == Len(s.R) - e.p
        gone == s.gone \o First(Base(s, o), o.j)
        mv == s.mv + Moved(s, o)
    IN  /\ o.k >= (IF s.dup THEN 1 ELSE 0) /\ o.k <= Len(s.R)
        \* an item leaves the buffer only after it is in flash
        /\ o.k \in {d, d + 1}
        /\ (o.k = d + 1 => e.r = "pending" \/ Interrupted(e))
        /\ e.c = Rest(Base(s, o), o.j)
        \* and flash only when popped or by permission to overwrite
        /\ (~e.over => Len(gone) <= (IF e.a = "pop" THEN 1 ELSE 0))
        /\ (~e.over /\ Failed(e) /\ ~Interrupted(e) => gone = <<>>)
        /\ (~e.over /\ e.a = "pop" /\ e.r = "ok" => Len(gone) = IF e.x = 0 THEN 0 ELSE 1)
        /\ (e.a = "drain1" => mv <= 1)
        /\ (e.a = "wait" => mv = 0)
        /\ (~g.shared /\ e.a = "peek" => mv = 0)
        /\ (~g.shared /\ e.a = "pop" => IF s.F = <<>> THEN o.k = o.j /\ o.k = d /\ mv <= 1 ELSE mv = 0)
Options(g, s, e) ==
    LET d == Len(s.R) - e.p
    IN  {o \in UNION {{[k |-> k, ci |-> ci, j |-> Len(Base(s, [k |-> k, ci |-> ci])) - Len(e.c)]
                          : ci \in 0..Len(s.cand)} : k \in {d, d + 1} \cap 0..Len(s.R)}
           : o.j >= 0 /\ Legal(g, s, e, o)}
\* what a pop returned, and whether drain1 wrote an item
Fits(g, s, e, o) ==
    LET gone == s.gone \o First(Base(s, o), o.j)
    IN  CASE e.a = "pop" /\ e.r = "ok" /\ e.x # 0 -> gone # <<>> /\ gone[Len(gone)] = e.x
          [] e.a = "drain1" /\ e.r = "ok" -> s.mv + Moved(s, o) = e.x
          [] OTHER -> TRUE
Chosen(g, s, e) == LET A == Options(g, s, e)
                       B == {o \in A : Fits(g, s, e, o)}
                       O == IF B = {} THEN A ELSE B
                   IN  CHOOSE o \in O : \A q \in O : o.k < q.k \/ (o.k = q.k /\ o.ci <= q.ci)

\* state after the step; if there is no explanation: what is observed
AfterStep(g, s0, e) ==
    LET s == Begin(s0)
        d == Len(s.R) - e.p
        o == Chosen(g, s, e)
        R == IF d >= 0 THEN Rest(s.R, d) ELSE s.R
        emp == s.emp \/ R = <<>>
        t == IF Options(g, s, e) = {} THEN [s EXCEPT !.F = e.c, !.R = R]
             ELSE [s EXCEPT !.F = e.c, !.R = R, !.dup = o.k = d + 1, !.emp = emp,
                            !.cand = IF Moved(s, o) > 0 THEN <<>> ELSE s.cand,
                            !.gone = s.gone \o First(Base(s, o), o.j), !.mv = s.mv + Moved(s, o)]
        wait == e.a \in {"wait", "wdrain"}
        uns == IF R = <<>> THEN FALSE
               ELSE IF ~Ended(e) THEN s.uns
               ELSE IF e.a = "wait" /\ e.r = "ok" THEN FALSE
               ELSE IF e.a = "wdrain" THEN IF e.r = "ok" THEN TRUE ELSE s.uns /\ e.r = "cancel" /\ s.park /\ e.y = 0
               ELSE s.uns
        park == IF Ended(e) THEN FALSE ELSE IF e.mid THEN s.park ELSE wait /\ e.y = 0
    IN  IF Ended(e) THEN [t EXCEPT !.act = FALSE, !.dup = FALSE, !.cand = <<>>, !.gone = <<>>, !.mv = 0,
                                   !.emp = FALSE, !.uns = uns, !.park = FALSE, !.midp = FALSE, !.late = FALSE,
                                   !.sig = IF wait /\ e.r = "ok" THEN s.late ELSE s.sig]
        ELSE [t EXCEPT !.uns = uns, !.park = park, !.midp = e.mid \/ e.a = "wdrain"]

TooBig(g, s) == \E q \in {s.F, s.R, s.cand} : \E j \in 1..Len(q) : g.vlen[q[j]] > g.max
\* (also flash items that were popped already may ask for a bigger buffer)
SmallBuf(g, s, u) == \/ u < g.max + g.word
                     \/ \E q \in {s.R, s.cand} : \E j \in 1..Len(q) : RoundUp(g.vlen[q[j]], g.word) > u
Legit(g, s, e) ==
    CASE e.r \in {"ok", "pending"} -> TRUE
      [] e.r = "full" -> ~e.over /\ e.a # "wait"
      [] e.r = "toobig" -> TooBig(g, s)
      [] e.r = "bufsmall" -> SmallBuf(g, s, e.u) /\ e.x > e.u
      [] e.r \in {"storage", "cancel"} -> Interrupted(e)
      [] OTHER -> FALSE

VStep(g, s0, e) ==
    LET s == Begin(s0)
        t == AfterStep(g, s0, e)
        R == Rest(s.R, Len(s.R) - e.p)
        o == Chosen(g, s, e)
        emp == s.emp \/ R = <<>>
    IN  IF e.p > Len(s.R) \/ ~Counts(g, R, e) THEN {"count"}
        ELSE IF Options(g, s, e) = {} THEN {"content"}
        ELSE
        (IF Legit(g, s, e) THEN {} ELSE {"result"})
        \cup (IF e.r # "ok" THEN {}
              ELSE CASE e.a = "drain1" -> IF Fits(g, s, e, o) /\ (e.x = 1 \/ emp) THEN {} ELSE {"drained"}
                     [] e.a \in {"drain", "wdrain"} -> IF emp THEN {} ELSE {"drained"}
                     [] e.a = "pop" -> IF e.x = 0 THEN (IF emp /\ e.c = <<>> THEN {} ELSE {"absent"})
                                       ELSE IF Fits(g, s, e, o) THEN {} ELSE {"value"}
                     [] e.a = "peek" -> LET q == IF g.shared THEN e.c ELSE e.c \o R
                                        IN  IF e.x = 0 THEN (IF emp /\ q = <<>> THEN {} ELSE {"absent"})
                                            ELSE IF q # <<>> /\ q[1] = e.x THEN {} ELSE {"value"}
                     [] OTHER -> {})
        \* a waiting task does not sleep while it has to be told of an item
        \cup (IF e.r = "pending" /\ ~e.mid /\ e.y = 0
                 /\ (e.a \notin {"wait", "wdrain"} \/ (s.uns /\ s.out = 0 /\ R # <<>> /\ e.wk = 0))
              THEN {"wake"} ELSE {})
        \* and a wait is over only when there was an enqueue since the last one
        \cup (IF e.a \in {"wait", "wdrain"} /\ e.r = "ok" /\ ~s.sig /\ s.out = 0 THEN {"wake"} ELSE {})

(*** all events ************************************************************)
After(g, s, e) ==
    CASE e.o = "enq" -> AfterEnq(g, s, e)
      [] e.o = "enqmid" -> AfterMid(g, s, e)
      [] e.o = "enqend" -> AfterEnd(g, s, e)
      [] e.o = "step" -> AfterStep(g, s, e)
      [] OTHER -> S0(s.F)
Viol(g, s, e) ==
    (CASE e.o = "enq" -> VEnq(g, s, e)
       [] e.o = "enqmid" -> VMid(g, s, e)
       [] e.o = "enqend" -> VEnd(g, s, e)
       [] e.o = "step" -> VStep(g, s, e)
       [] OTHER -> IF e.c = s.F /\ e.p = 0 /\ e.b = g.cap THEN {} ELSE {"content"})
    \cup (IF \E j \in 1..Len(e.c) : e.c[j] < 0 THEN {"observe"} ELSE {})
=============================================================================
