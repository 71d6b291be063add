------------------------------ MODULE MapFlash ------------------------------
(* The map as it works on the flash: a ring of pages that hold items, one      *)
(* buffer page that is kept open, migration of what is still needed out of the *)
(* page that becomes the next buffer page, and repair of interrupted work.     *)
(*                                                                             *)
(* Every operation is a run: a sequence of flash mutations (write of a header, *)
(* of data, of a marker, erase of a page) computed from the flash it starts    *)
(* on.  Every prefix of that sequence, and every way in which the last         *)
(* mutation of the prefix may have taken effect partially, is a state in which *)
(* the power may fail; the next operation then starts there.                   *)
(*                                                                             *)
(* Checked: every complete or interrupted run, from every reachable flash, is  *)
(* a step that MapContract permits.  The behaviours TLC finds (one shortest    *)
(* path to every distinct flash) are replayed into the real code by `sshb      *)
(* walk`, see check.                                                           *)
(*                                                                             *)
(* A page: s, e  start and end marker written       j  remains of an erase     *)
(*         it    sequence of items [k key, v value, n words, x "ok" readable,  *)
(*               "del" deleted, "bad" torn]                                    *)
EXTENDS MapContract, TLC, Json, IOUtils

CONSTANTS NP,      \* pages
          CAP,     \* words between the markers of a page
          HW,      \* words of an item header
          KLen,    \* bytes per key
          VLen,    \* bytes per value
          Word,    \* bytes per word
          Wrong,   \* "" or the name of a wrong design (must be refuted)
          Crashes, \* how many interruptions a behaviour has at most
          Emit     \* write the behaviours found to OUT_FILE?

VARIABLES fl, ct, cr, path, viol   \* flash, its contents, interruptions so far, way here, clauses violated
vars == <<fl, ct, cr, path, viol>>
NK == Len(KLen)
NV == Len(VLen)
G == [hdr |-> HW * Word, word |-> Word, cap |-> CAP * Word, klen |-> KLen, vlen |-> VLen]
Words(k, v) == HW + ((KLen[k] + VLen[v] + Word - 1) \div Word)

Blank == [s |-> FALSE, e |-> FALSE, j |-> FALSE, it |-> <<>>]
St(p) == IF p.s THEN (IF p.e THEN "C" ELSE "P") ELSE IF p.e THEN "X" ELSE "O"
RECURSIVE SumN(_, _)
SumN(it, i) == IF i = 0 THEN 0 ELSE it[i].n + SumN(it, i - 1)
Used(p) == SumN(p.it, Len(p.it))
Next1(p) == (p % NP) + 1
Prev1(p) == IF p = 1 THEN NP ELSE p - 1

(***************************************************************************)
(* Runs: f flash, n number of mutations so far, c states of interruption   *)
(* <<mutation, phase, flash>>, r result so far ("" = going on), bug if the *)
(* flash would be used in a way it does not allow                          *)
(***************************************************************************)
Run0(f) == [f |-> f, n |-> 0, c |-> <<>>, r |-> "", bug |-> FALSE, list |-> <<>>]
Mutate(R, mids, p, after, bad) ==
    LET g == [R.f EXCEPT ![p] = after]
    IN  [R EXCEPT !.f = g, !.n = @ + 1, !.bug = @ \/ bad,
                  !.c = @ \o [i \in 1..Len(mids) |-> <<R.n + 1, i, [R.f EXCEPT ![p] = mids[i]]>>]
                          \o <<<<R.n + 1, 9, g>>>>]
(* an erase works its way through the page: first the start marker goes        *)
Erase(R, p) ==
    LET o == R.f[p] IN
    Mutate(R, << [o EXCEPT !.s = FALSE],
                 [o EXCEPT !.s = FALSE, !.it = <<>>, !.j = o.j \/ Used(o) > (CAP + 2) \div 2] >>, p, Blank, FALSE)
MarkStart(R, p) == Mutate(R, <<>>, p, [R.f[p] EXCEPT !.s = TRUE], FALSE)
MarkEnd(R, p) == Mutate(R, <<>>, p, [R.f[p] EXCEPT !.e = TRUE], FALSE)
(* header first, then data; a torn header makes its words unusable             *)
Write(R, p, k, v) ==
    LET o == R.f[p]
        w == Words(k, v)
        len == KLen[k] + VLen[v]
        bad == o.j \/ ~o.s \/ o.e \/ Used(o) + w > CAP
        I(x) == [o EXCEPT !.it = Append(@, [k |-> k, v |-> v, n |-> w, x |-> x])]
        torn == [o EXCEPT !.it = Append(@, [k |-> 0, v |-> 0, n |-> HW, x |-> "bad"])]
        R1 == Mutate(R, IF HW > 1 THEN <<torn>> ELSE <<>>, p, I("bad"), bad)
        \* whole words of the data first, then the rest of it
        R2 == IF len >= Word /\ len % Word # 0 THEN Mutate(R1, <<>>, p, I("bad"), FALSE) ELSE R1
    IN  Mutate(R2, <<>>, p, I("ok"), FALSE)
Delete(R, p, i) == Mutate(R, <<>>, p, [R.f[p] EXCEPT !.it[i].x = "del"], FALSE)

(***************************************************************************)
(* Looking things up.  A page whose markers make no sense stops a scan.    *)
(***************************************************************************)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(f, s, p) == IF p > NP THEN 0 ELSE IF St(f[p]) = "X" THEN -1 ELSE IF St(f[p]) = s THEN p ELSE FirstFrom(f, s, p + 1)
First(f, s) == FirstFrom(f, s, 1)        \* 0 none, -1 corrupted
RECURSIVE LastFrom(_, _, _, _)
LastFrom(f, s, p, found) ==
    IF p > NP THEN found
    ELSE IF St(f[p]) = "X" THEN -1
    ELSE IF St(f[p]) = s THEN LastFrom(f, s, p + 1, p)
    ELSE IF found > 0 THEN found ELSE LastFrom(f, s, p + 1, 0)
LastRun(f, s) == LastFrom(f, s, 1, 0)

RECURSIVE NewestIn(_, _, _)
NewestIn(it, k, i) == IF i = 0 THEN 0 ELSE IF it[i].x = "ok" /\ it[i].k = k THEN i ELSE NewestIn(it, k, i - 1)
(* the page used last: 0 none (nothing stored), -1 corrupted                   *)
LastUsed(f) ==
    LET p == First(f, "P")
        o == First(f, "O")
    IN  IF p # 0 THEN p
        ELSE IF o <= 0 THEN -1
        ELSE CASE St(f[Prev1(o)]) = "X" -> -1 [] St(f[Prev1(o)]) = "C" -> Prev1(o) [] OTHER -> 0
RECURSIVE Back(_, _, _)
Back(f, k, p) ==
    LET i == NewestIn(f[p].it, k, Len(f[p].it)) IN
    IF i > 0 THEN <<p, i>>
    ELSE CASE St(f[Prev1(p)]) = "X" -> <<-1, 0>> [] St(f[Prev1(p)]) = "C" -> Back(f, k, Prev1(p)) [] OTHER -> <<0, 0>>
(* where the newest item of a key is: <<page, index>>, <<0, 0>> nowhere,       *)
(* <<-1, 0>> corrupted                                                         *)
Newest(f, k) == LET l == LastUsed(f) IN IF l <= 0 THEN <<l, 0>> ELSE Back(f, k, l)

(***************************************************************************)
(* Migration, repair, operations                                           *)
(***************************************************************************)
RECURSIVE MigrateFrom(_, _, _, _)
MigrateFrom(R, src, tgt, i) ==
    IF i > Len(R.f[src].it) THEN Erase(R, src)
    ELSE LET x == R.f[src].it[i] IN
         IF x.x # "ok" THEN MigrateFrom(R, src, tgt, i + 1)
         ELSE LET w == Newest(R.f, x.k) IN
              IF w[1] <= 0 THEN [R EXCEPT !.r = "corrupt"]
              ELSE IF w = <<src, i>> \/ Wrong = "migrate-all"
                   THEN MigrateFrom(Write(R, tgt, x.k, x.v), src, tgt, i + 1)
              ELSE MigrateFrom(R, src, tgt, i + 1)
Migrate(R, src, tgt) ==
    MigrateFrom(IF R.f[tgt].it # <<>> THEN [R EXCEPT !.bug = TRUE] ELSE R, src, tgt, 1)

RECURSIVE ReErase(_, _)
ReErase(R, p) == IF p > NP THEN R ELSE ReErase(IF St(R.f[p]) = "X" THEN Erase(R, p) ELSE R, p + 1)
Repair(R0) ==
    LET R == ReErase([R0 EXCEPT !.r = ""], 1)
        p == First(R.f, "P")
    IN  IF p > 0 /\ St(R.f[Next1(p)]) # "O"
        THEN IF Wrong = "repair-keeps-target" THEN Migrate(R, Next1(p), p)
             ELSE IF Wrong = "repair-drops-buffer" THEN Erase(R, Next1(p))
             ELSE Migrate(MarkStart(Erase(R, p), p), Next1(p), p)
        ELSE R
BufferBad(f, p) == St(f[Next1(p)]) # "O"

RECURSIVE StoreLoop(_, _, _, _)
StoreLoop(R, k, v, level) ==
    LET p == First(R.f, "P")
        o == First(R.f, "O")
    IN  IF level = NP THEN [R EXCEPT !.r = "full"]
        ELSE IF p = -1 THEN [R EXCEPT !.r = "corrupt"]
        ELSE IF p = 0
        THEN IF o <= 0 THEN [R EXCEPT !.r = "corrupt"] ELSE StoreLoop(MarkStart(R, o), k, v, level + 1)
        ELSE IF BufferBad(R.f, p) THEN [R EXCEPT !.r = "corrupt"]
        ELSE IF Words(k, v) > CAP THEN [R EXCEPT !.r = "toobig"]
        ELSE IF Used(R.f[p]) + Words(k, v) <= CAP THEN [Write(R, p, k, v) EXCEPT !.r = "ok"]
        ELSE LET q == Next1(p)
                 b == Next1(q)
                 R1 == IF Wrong = "open-before-close" THEN MarkStart(R, q) ELSE MarkStart(MarkEnd(R, p), q)
                 R2 == CASE St(R1.f[b]) = "X" -> [R1 EXCEPT !.r = "corrupt"]
                         [] St(R1.f[b]) = "O" -> R1
                         [] OTHER -> Migrate(R1, b, q)
                 R3 == IF Wrong = "open-before-close" /\ R2.r = "" THEN MarkEnd(R2, p) ELSE R2
             IN  IF R3.r # "" THEN R3 ELSE StoreLoop(R3, k, v, level + 1)
StoreInner(R, k, v) == StoreLoop(R, k, v, 0)

RECURSIVE DelItems(_, _, _, _), DelPages(_, _, _, _)
DelItems(R, K, p, i) ==
    IF i > Len(R.f[p].it) THEN R
    ELSE DelItems(IF R.f[p].it[i].x = "ok" /\ R.f[p].it[i].k \in K THEN Delete(R, p, i) ELSE R, K, p, i + 1)
DelPages(R, K, p, m) ==
    IF m = 0 THEN [R EXCEPT !.r = "ok"]
    ELSE CASE St(R.f[p]) = "X" -> [R EXCEPT !.r = "corrupt"]
           [] St(R.f[p]) = "O" -> DelPages(R, K, Next1(p), m - 1)
           [] OTHER -> DelPages(DelItems(R, K, p, 1), K, Next1(p), m - 1)
RemoveInner(R, K) ==
    LET p == First(R.f, "P")
        c == LastRun(R.f, "C")
        last == IF p > 0 THEN p ELSE IF c > 0 THEN c ELSE 1
    IN  IF p = -1 \/ (p = 0 /\ c = -1) THEN [R EXCEPT !.r = "corrupt"]
        ELSE IF p > 0 /\ BufferBad(R.f, p) /\ Wrong # "remove-unrepaired" THEN [R EXCEPT !.r = "corrupt"]
        ELSE DelPages(
                 \* what is removed now must not be found again on the remains of an
                 \* interrupted repair, once they are taken for a page in use
                 IF p = 0 /\ c > 0 /\ St(R.f[Next1(c)]) = "O" /\ R.f[Next1(c)].it # <<>> /\ Wrong # "remove-keeps-remains" THEN Erase(R, Next1(c)) ELSE R,
                 K, IF Wrong = "remove-newest-first" THEN last ELSE Next1(last), NP)

FetchInner(R, k) ==
    LET w == Newest(R.f, k) IN
    IF w[1] < 0 THEN [R EXCEPT !.r = "corrupt"]
    ELSE [R EXCEPT !.r = "ok", !.list = IF w[1] = 0 THEN <<0>> ELSE <<R.f[w[1]].it[w[2]].v>>]

RECURSIVE ListPages(_, _, _)
ListPages(f, p, m) ==
    IF m = 0 THEN <<>>
    ELSE LET it == SelectSeq(f[p].it, LAMBDA x : x.x = "ok") IN
         (IF St(f[p]) \in {"C", "P"} THEN [i \in DOMAIN it |-> <<it[i].k, it[i].v>>] ELSE <<>>)
         \o ListPages(f, Next1(p), m - 1)
IterInner(R) ==
    LET l == LastUsed(R.f) IN
    IF l = -1 THEN [R EXCEPT !.r = "corrupt"]
    ELSE [R EXCEPT !.r = "ok", !.list = ListPages(R.f, IF l = 0 THEN 1 ELSE Next1(l), NP)]

Inner(op, R) ==
    CASE op.o = "store" -> StoreInner(R, op.k, op.v)
      [] op.o = "remove" -> RemoveInner(R, {op.k})
      [] op.o = "removeall" -> RemoveInner(R, 1..NK)
      [] op.o = "fetch" -> FetchInner(R, op.k)
      [] op.o = "iter" -> IterInner(R)
Exec(op, f) ==
    LET R1 == Inner(op, Run0(f))
        R2 == Repair(R1)
    IN  IF R1.r # "corrupt" THEN R1 ELSE IF R2.r # "" THEN R2 ELSE Inner(op, R2)

(* what a new instance reads                                                   *)
Content(f) == [k \in 1..NK |-> LET R == Exec([o |-> "fetch", k |-> k], f) IN
                               IF R.r # "ok" \/ R.bug THEN -1 ELSE R.list[1]]

(***************************************************************************)
Ops == [o : {"store"}, k : 1..NK, v : 1..NV] \cup [o : {"remove", "fetch"}, k : 1..NK, v : {0}]
       \cup [o : {"removeall", "iter"}, k : {0}, v : {0}]
AllPairs == (1..NK) \X (1..NV)
Event(op, R, f, d) ==
    LET e == [o |-> op.o, k |-> op.k, v |-> op.v, r |-> R.r, f |-> f, c |-> d,
              n |-> IF op.o = "store" THEN KLen[op.k] + VLen[op.v] ELSE 0,
              x |-> IF op.o = "fetch" /\ R.r = "ok" THEN R.list[1] ELSE -1]
    IN  IF op.o = "iter" THEN e @@ [i |-> R.list] ELSE e
Judge(op, R, f, g) ==
    LET d == Content(g) IN
    /\ fl' = g
    /\ ct' = d
    /\ viol' = Viol(G, ct, Event(op, R, f, d), d, AllPairs) \cup (IF R.bug THEN {"flash"} ELSE {})

Init == fl = [p \in 1..NP |-> Blank] /\ ct = [k \in 1..NK |-> 0] /\ cr = 0 /\ path = <<>> /\ viol = {}
Step(op) ==
    LET R == Exec(op, fl) IN
    \/ /\ Judge(op, R, "none", R.f)
       /\ cr' = cr
       /\ path' = Append(path, <<op.o, op.k, op.v, -1, 0>>)
    \/ /\ cr < Crashes
       /\ cr' = IF Crashes >= 99 THEN cr ELSE cr + 1
       /\ \E i \in DOMAIN R.c :
             /\ Judge(op, [R EXCEPT !.r = "storage", !.list = <<>>], "crash", R.c[i][3])
             /\ path' = Append(path, <<op.o, op.k, op.v, R.c[i][1], R.c[i][2]>>)
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

Permitted == viol = {}
(* the shape of the ring between operations: the pages in use follow each      *)
(* other, and the newest is followed by an open one (or its items still have   *)
(* to be brought into it)                                                      *)
TypeOK == \A p \in 1..NP : Used(fl[p]) <= CAP
View == <<fl, cr, viol>>
Shape(f) == [p \in 1..NP |-> <<St(f[p]), [i \in DOMAIN f[p].it |-> IF f[p].it[i].x = "ok" THEN <<f[p].it[i].k, f[p].it[i].v, "ok">> ELSE <<0, 0, f[p].it[i].x>>]>>]
Out == Emit => PrintT("PATH " \o ToJson([path |-> path, shape |-> Shape(fl), c |-> ct]))
=============================================================================
