----------------------------- MODULE QueueFlash -----------------------------
(* The queue as it works on the flash: a ring of pages that are filled in      *)
(* order, popped items are overwritten with a header that says so, pages whose *)
(* items are all popped are erased when the next page is entered or when they  *)
(* are needed.  Runs, interruptions and the binding to the code: see MapFlash. *)
(*                                                                             *)
(* Checked: every complete or interrupted run, from every reachable flash, is  *)
(* a step that QueueContract permits.                                          *)
(*                                                                             *)
(* A page: s, e  start and end marker written       j  remains of an erase     *)
(*         it    sequence of items [v data id, n words, x "ok" readable,       *)
(*               "del" popped, "bad" torn]                                     *)
(* Data ids: lengths l = 1..NL, each with TAGS marks that successive pushes    *)
(* cycle through, so that every order other than the pushed one is visible.    *)
EXTENDS QueueContract, TLC, Json, IOUtils

CONSTANTS NP,      \* pages
          CAP,     \* words between the markers of a page
          HW,      \* words of an item header
          Lens,    \* bytes per length
          TAGS,    \* marks (below)
          Word,    \* bytes per word
          Masks,   \* positions popped by the iterations (a bit mask, all of 255: all)
          Over,    \* pushes that may overwrite?
          Wrong,   \* "" or the name of a wrong design (must be refuted)
          Crashes, \* how many interruptions a behaviour has at most
          Emit

VARIABLES fl, ct, cr, path, viol
vars == <<fl, ct, cr, path, viol>>
NL == Len(Lens)
Id(tag, l) == (tag - 1) * NL + l
TagOf(v) == ((v - 1) \div NL) + 1
VLen == [v \in 1..(TAGS * NL) |-> Lens[((v - 1) % NL) + 1]]
Fifo == Crashes = 0 /\ Masks \subseteq {0, 1, 3, 255}
G == [hdr |-> HW * Word, word |-> Word, cap |-> CAP * Word, np |-> NP, vlen |-> VLen, fifo |-> Fifo]
WordsOf(b) == HW + ((b + Word - 1) \div Word)

Blank == [s |-> FALSE, e |-> FALSE, j |-> FALSE, it |-> <<>>]
St(p) == IF p.s THEN (IF p.e THEN "C" ELSE "P") ELSE IF p.e THEN "X" ELSE "O"
RECURSIVE SumN(_, _)
SumN(it, i) == IF i = 0 THEN 0 ELSE it[i].n + SumN(it, i - 1)
Used(p) == SumN(p.it, Len(p.it))
Next1(p) == (p % NP) + 1
Prev1(p) == IF p = 1 THEN NP ELSE p - 1

(***************************************************************************)
(* Runs (see MapFlash); `list` is what an iteration has returned so far:   *)
(* <<data id, popped (0 no, 1 yes, 2 interrupted)>>                        *)
(***************************************************************************)
Run0(f) == [f |-> f, n |-> 0, c |-> <<>>, r |-> "", bug |-> FALSE, list |-> <<>>]
Mutate(R, mids, p, after, bad) ==
    LET g == [R.f EXCEPT ![p] = after]
    IN  [R EXCEPT !.f = g, !.n = @ + 1, !.bug = @ \/ bad,
                  !.c = @ \o [i \in 1..Len(mids) |-> <<R.n + 1, mids[i][1], [R.f EXCEPT ![p] = mids[i][2]], R.list>>]
                          \o <<<<R.n + 1, 9, g, R.list>>>>]
Erase(R, p) ==
    LET o == R.f[p] IN
    Mutate(R, << <<1, [o EXCEPT !.s = FALSE]>>,
                 <<2, [o EXCEPT !.s = FALSE, !.it = <<>>, !.j = o.j \/ Used(o) > (CAP + 2) \div 2]>> >>, p, Blank, FALSE)
MarkStart(R, p) == Mutate(R, <<>>, p, [R.f[p] EXCEPT !.s = TRUE], FALSE)
MarkEnd(R, p) == Mutate(R, <<>>, p, [R.f[p] EXCEPT !.e = TRUE], FALSE)
\* an item of b bytes; id v
Write(R, p, v, b) ==
    LET o == R.f[p]
        w == WordsOf(b)
        bad == o.j \/ ~o.s \/ (o.e /\ NP > 1) \/ Used(o) + w > CAP
        I(x) == [o EXCEPT !.it = Append(@, [v |-> IF x = "ok" THEN v ELSE 0, n |-> w, x |-> x])]
        torn == [o EXCEPT !.it = Append(@, [v |-> 0, n |-> HW, x |-> "bad"])]
        R1 == Mutate(R, IF HW > 1 THEN << <<1, torn>> >> ELSE <<>>, p, I("bad"), bad)
        R2 == IF b >= Word /\ b % Word # 0 THEN Mutate(R1, <<>>, p, I("bad"), FALSE) ELSE R1
    IN  Mutate(R2, <<>>, p, I("ok"), FALSE)
\* the checksum goes first: in parts, if words are smaller than it
Delete(R, p, i) ==
    LET I(x) == [R.f[p] EXCEPT !.it[i].x = x, !.it[i].v = 0]
    IN  Mutate(R, IF HW > 2 THEN << <<2, I("bad")>> >> ELSE <<>>, p, I("del"), R.f[p].it[i].x # "ok")

(***************************************************************************)
(* The ends of the queue: page number, 0 none, -1 corrupted                *)
(***************************************************************************)
RECURSIVE Search(_, _, _, _)
Search(f, s, p, m) == IF m = 0 THEN 0 ELSE IF St(f[p]) = "X" THEN -1 ELSE IF St(f[p]) = s THEN p ELSE Search(f, s, Next1(p), m - 1)
First(f, s, p) == Search(f, s, p, NP)
Youngest(f) ==
    LET y == First(f, "P", 1)
        c == First(f, "C", 1)
        o == First(f, "O", IF Wrong = "youngest-from-zero" THEN 1 ELSE c)
    IN  IF y # 0 THEN y
        ELSE IF c = -1 THEN -1
        ELSE IF c = 0 THEN 1
        ELSE IF o # 0 THEN o
        ELSE IF NP = 1 THEN 1 ELSE -1
Oldest(f) ==
    LET y == Youngest(f)
        c == First(f, "C", IF Wrong = "oldest-from-zero" THEN 1 ELSE y)
    IN  IF y = -1 THEN -1 ELSE IF c # 0 THEN c ELSE y
NoItems(p) == \A i \in DOMAIN p.it : p.it[i].x # "ok" /\ (Wrong = "torn-counts" => p.it[i].x # "bad")

RECURSIVE ReErase(_, _)
ReErase(R, p) == IF p > NP THEN R ELSE ReErase(IF St(R.f[p]) = "X" THEN Erase(R, p) ELSE R, p + 1)
Repair(R) == IF Wrong = "no-repair" THEN [R EXCEPT !.r = ""] ELSE ReErase([R EXCEPT !.r = ""], 1)

(***************************************************************************)
(* Push                                                                    *)
(***************************************************************************)
PushInner(R, v, b, over) ==
    LET y == Youngest(R.f) IN
    IF WordsOf(b) > CAP THEN [R EXCEPT !.r = "toobig"]
    ELSE IF y = -1 THEN [R EXCEPT !.r = "corrupt"]
    ELSE LET R1 == IF St(R.f[y]) = "O" THEN MarkStart(R, y) ELSE R
             n == Next1(y)
             s == St(R1.f[n])
             close(Q) == IF St(Q.f[y]) = "P" THEN MarkEnd(Q, y) ELSE Q
         IN  IF Used(R1.f[y]) + WordsOf(b) <= CAP THEN [Write(R1, y, v, b) EXCEPT !.r = "ok"]
             ELSE IF s = "O" THEN [Write(MarkStart(close(R1), n), n, v, b) EXCEPT !.r = "ok"]
             ELSE IF s = "X" \/ (s = "P" /\ NP > 1) THEN [R1 EXCEPT !.r = "corrupt"]
             ELSE IF ~over /\ ~NoItems(R1.f[n]) THEN [R1 EXCEPT !.r = "full"]
             ELSE LET R2 == IF NP = 1 THEN Erase(IF Wrong = "single-not-closed" THEN R1 ELSE close(R1), n)
                            ELSE IF Wrong = "close-before-erase" THEN Erase(close(R1), n)
                            ELSE close(Erase(R1, n))
                  IN  [Write(MarkStart(R2, n), n, v, b) EXCEPT !.r = "ok"]

(***************************************************************************)
(* Iteration.  st: have all items before this one been popped ("all"), all *)
(* but the one just returned ("cur"), or not ("un")                        *)
(***************************************************************************)
Chosen(mask, i) == IF mask >= 128 THEN i > 7 \/ ((mask \div (2 ^ (i - 1))) % 2 = 1) ELSE i <= 7 /\ ((mask \div (2 ^ (i - 1))) % 2 = 1)
RECURSIVE Walk(_, _, _, _, _, _, _), After(_, _, _, _, _, _, _)
Walk(R, p, i, st, old, mask, lim) ==
    IF Len(R.list) = lim THEN [R EXCEPT !.r = "ok"]
    ELSE IF i > Len(R.f[p].it) THEN After(R, p, IF st = "cur" THEN "un" ELSE st, old, mask, lim, TRUE)
    ELSE LET x == R.f[p].it[i]
             st0 == IF st = "cur" THEN "un" ELSE st
             pos == Len(R.list) + 1
             st1 == IF st0 = "all" THEN "cur" ELSE st0
         IN  IF x.x # "ok" THEN Walk(R, p, i + 1, st, old, mask, lim)
             ELSE IF Chosen(mask, pos)
             THEN LET R1 == Delete([R EXCEPT !.list = Append(@, <<x.v, 2>>)], p, i)
                      R2 == [R1 EXCEPT !.list[pos] = <<x.v, 1>>]
                  IN  Walk(R2, p, i + 1, IF st1 = "cur" \/ Wrong = "pop-means-all" THEN "all" ELSE st1, old, mask, lim)
             ELSE Walk([R EXCEPT !.list = Append(@, <<x.v, 0>>)], p, i + 1,
                       IF Wrong = "peek-means-all" THEN "all" ELSE st1, old, mask, lim)
After(R, p, st, old, mask, lim, first) ==
    LET n == Next1(p)
        s == St(R.f[n])
    IN  IF n = old \/ s = "O" THEN [R EXCEPT !.r = "ok"]
        ELSE IF s = "X" THEN IF first THEN After(Repair(R), p, st, old, mask, lim, FALSE) ELSE [R EXCEPT !.r = "corrupt"]
        ELSE Walk(IF st = "all" THEN Erase(R, p) ELSE R, n, 1, st, old, mask, lim)
IterRun(f, mask, lim) ==
    LET R0 == Run0(f)
        o0 == Oldest(f)
        R1 == IF o0 = -1 THEN Repair(R0) ELSE R0
        o == Oldest(R1.f)
    IN  IF o = -1 THEN [R1 EXCEPT !.r = "corrupt"] ELSE Walk(R1, o, 1, "all", o, mask, lim)

(***************************************************************************)
(* What still fits                                                         *)
(***************************************************************************)
Empty == (CAP - HW) * Word
FitInner(R) ==
    LET y == Youngest(R.f)
        n == Next1(y)
        s == IF y = -1 THEN "X" ELSE St(R.f[n])
        a == CAP - Used(R.f[y]) - HW
    IN  IF y = -1 \/ s = "X" \/ (s = "P" /\ NP > 1) THEN [R EXCEPT !.r = "corrupt"]
        ELSE [R EXCEPT !.r = "ok",
                 !.list = IF s = "O" \/ NoItems(R.f[n]) THEN <<Empty>>
                          ELSE IF a < 0 THEN <<-1>> ELSE <<a * Word>>]
SpaceOn(p) ==
    LET s == St(p)
        empty == s = "O" \/ (s = "C" /\ NoItems(p))
    IN  IF s = "C" /\ ~empty /\ NP > 1 THEN 0
        ELSE IF empty \/ ((CAP - Used(p) < HW \/ NP = 1) /\ NoItems(p)) THEN CAP * Word
        ELSE (CAP - Used(p)) * Word
RECURSIVE SumSpace(_, _)
SumSpace(f, p) == IF p = 0 THEN 0 ELSE SpaceOn(f[p]) + SumSpace(f, p - 1)
SpaceInner(R) ==
    IF \E p \in 1..NP : St(R.f[p]) = "X" THEN [R EXCEPT !.r = "corrupt"]
    ELSE [R EXCEPT !.r = "ok", !.list = <<SumSpace(R.f, NP)>>]

Retry(R1, Op(_)) == IF R1.r = "corrupt" THEN Op(Repair(R1)) ELSE R1
Push(f, v, b, over) == LET I(R) == PushInner(R, v, b, over) IN Retry(I(Run0(f)), I)
Fit(f) == Retry(FitInner(Run0(f)), FitInner)
Space(f) == Retry(SpaceInner(Run0(f)), SpaceInner)

\* what a new instance reads
Content(f) == LET R == IterRun(f, 0, 1000) IN
              IF R.r # "ok" \/ R.bug THEN <<-1>> ELSE [i \in DOMAIN R.list |-> R.list[i][1]]

(***************************************************************************)
NextTag == IF ct = <<>> \/ ct[Len(ct)] < 1 THEN 1 ELSE (TagOf(ct[Len(ct)]) % TAGS) + 1
Ops == [o : IF Over THEN {"push", "pusho"} ELSE {"push"}, k : {0}, v : 1..NL] \cup [o : {"pop", "peek", "maxfit", "space"}, k : {0}, v : {0}]
       \cup [o : {"iter"}, k : Masks, v : {0}]
Exec(op, id) ==
    CASE op.o = "push" -> Push(fl, id, VLen[id], FALSE)
      [] op.o = "pusho" -> Push(fl, id, VLen[id], TRUE)
      [] op.o = "pop" -> IterRun(fl, 1, 1)
      [] op.o = "peek" -> IterRun(fl, 0, 1)
      [] op.o = "iter" -> IterRun(fl, op.k, 1000)
      [] op.o = "maxfit" -> Fit(fl)
      [] op.o = "space" -> Space(fl)
SetToList(S, m) == SelectSeq([i \in 1..m |-> i], LAMBDA i : i \in S)
SpaceNum(f) == LET R == Space(f) IN IF R.r = "ok" THEN R.list[1] ELSE -1
Event(op, id, R, f, d, g) ==
    LET isPush == op.o \in {"push", "pusho"}
        e == [o |-> op.o, v |-> id, n |-> IF isPush THEN VLen[id] ELSE 0, r |-> R.r, f |-> f, c |-> d,
              x |-> CASE op.o \in {"pop", "peek"} -> IF R.list = <<>> THEN 0 ELSE R.list[1][1]
                      [] op.o \in {"maxfit", "space"} /\ R.r = "ok" -> R.list[1]
                      [] OTHER -> -2,
              s |-> <<SpaceNum(fl), SpaceNum(g)>>]
        e1 == IF op.o = "iter" THEN e @@ [i |-> R.list, lim |-> 1000, pl |-> SetToList({j \in 1..20 : Chosen(op.k, j)}, 20)] ELSE e
        e2 == IF op.o = "pusho" THEN e1 @@ [nd |-> Push(fl, id, VLen[id], FALSE).r = "full"] ELSE e1
        m == IF R.r = "ok" THEN R.list[1] ELSE -2
    IN  IF op.o = "maxfit" /\ f = "none"
        THEN e2 @@ [m |-> m, p0 |-> IF m < 0 THEN "" ELSE Push(fl, 1, m, FALSE).r, p1 |-> Push(fl, 1, IF m < 0 THEN 0 ELSE m + 1, FALSE).r]
        ELSE e2
Judge(op, id, R, f, g) ==
    LET d == Content(g) IN
    /\ fl' = g
    /\ ct' = d
    /\ viol' = Viol(G, ct, Event(op, id, R, f, d, g), d) \cup (IF R.bug THEN {"flash"} ELSE {})

Init == fl = [p \in 1..NP |-> Blank] /\ ct = <<>> /\ cr = 0 /\ path = <<>> /\ viol = {}
Step(op) ==
    LET id == IF op.v = 0 THEN 0 ELSE Id(NextTag, op.v)
        R == Exec(op, id)
    IN
    \/ /\ Judge(op, id, R, "none", R.f)
       /\ cr' = cr
       /\ path' = Append(path, <<op.o, op.k, id, -1, 0>>)
    \/ /\ cr < Crashes
       /\ cr' = IF Crashes >= 99 THEN cr ELSE cr + 1
       /\ \E i \in DOMAIN R.c :
             /\ Judge(op, id, [R EXCEPT !.r = "storage", !.list = R.c[i][4]], "crash", R.c[i][3])
             /\ path' = Append(path, <<op.o, op.k, id, R.c[i][1], R.c[i][2]>>)
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

Permitted == viol = {}
TypeOK == \A p \in 1..NP : Used(fl[p]) <= CAP
View == <<fl, cr, viol>>
Shape(f) == [p \in 1..NP |-> <<St(f[p]), [i \in DOMAIN f[p].it |-> IF f[p].it[i].x = "ok" THEN <<f[p].it[i].v, "ok">> ELSE <<0, f[p].it[i].x>>]>>]
Out == Emit => PrintT("PATH " \o ToJson([path |-> path, shape |-> Shape(fl), c |-> ct]))
=============================================================================
