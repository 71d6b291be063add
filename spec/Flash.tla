-------------------------------- MODULE Flash --------------------------------
(* The NOR flash as the storage may use it: a device that has been given the *)
(* pages 0..np-1 behind a base address, write units that may be written once *)
(* per erase (once more to delete an item), pages that wear by erasing.      *)
(* Device state s:  n[p][u]  times unit u of page p was written since erased *)
(*                  er[p]    erases of page p since everything was erased    *)
(*                  nxt      page that has to be erased next (-1: any)       *)
(*                  ff       no interruption so far                          *)
(* Configuration g: base, page, np, wr (write unit), rd (read unit),         *)
(*                  er (erase unit = page), hdr (item header)                *)
(* Access a: <<kind (0 write, 1 erase), offset, length, effective length,    *)
(*             1 if a bit would have to be raised>>                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Units(g) == g.page \div g.wr
Blank(g) == [n |-> [p \in 1..g.np |-> [u \in 1..Units(g) |-> 0]],
             er |-> [p \in 1..g.np |-> 0], nxt |-> -1, ff |-> TRUE]

InRange(g, off, len) == off >= g.base /\ len > 0 /\ off + len <= g.base + g.np * g.page
Aligned(off, len, w) == off % w = 0 /\ len % w = 0

\* F01
VRead(g, r) == (IF InRange(g, r[1], r[2]) THEN {} ELSE {"range"})
               \cup (IF Aligned(r[1], r[2], g.rd) THEN {} ELSE {"align"})
VAccess(g, a) ==
    (IF InRange(g, a[2], a[3]) THEN {} ELSE {"range"})
    \cup (IF Aligned(a[2], a[3], IF a[1] = 1 THEN g.page ELSE g.wr) THEN {} ELSE {"align"})

PageOf(g, off) == (off - g.base) \div g.page + 1
EndOf(a) == a[2] + (IF a[4] > 0 THEN a[4] ELSE 1) - 1
PagesOf(g, a) == PageOf(g, a[2])..PageOf(g, EndOf(a))
\* offset of byte b relative to page p (both from 1 resp. absolute)
Rel(g, p, b) == b - g.base - (p - 1) * g.page
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
\* units of page p that are touched by access a / lie completely in it
Touched(g, p, a) == (MaxI(0, Rel(g, p, a[2])) \div g.wr + 1)..MinI(Units(g), Rel(g, p, EndOf(a)) \div g.wr + 1)
Covered(g, p, a) == ((MaxI(0, Rel(g, p, a[2])) + g.wr - 1) \div g.wr + 1)..MinI(Units(g), (Rel(g, p, EndOf(a)) + 1) \div g.wr)

(* Acc: <<device state, violated clauses, number of deletions>> *)
Write(g, acc, a) ==
    IF a[4] = 0 THEN <<acc[1], acc[2] \cup (IF a[5] = 1 THEN {"raise"} ELSE {}), acc[3]>>
    ELSE
    LET s == acc[1]
        ps == PagesOf(g, a)
        old == UNION {{s.n[p][u] : u \in Touched(g, p, a)} : p \in ps}
        again == old # {0}
    IN  <<[s EXCEPT !.n = [p \in 1..g.np |->
                 IF p \in ps THEN LET t == Touched(g, p, a)
                                  IN [u \in 1..Units(g) |-> IF u \in t THEN @[p][u] + 1 ELSE @[p][u]]
                 ELSE @[p]]],
          acc[2] \cup (IF \E x \in old : x > 1 THEN {"thrice"} ELSE {})
                 \cup (IF a[5] = 1 THEN {"raise"} ELSE {})
                 \cup (IF again /\ (a[3] > g.hdr \/ 0 \in old) THEN {"overwrite"} ELSE {}),
          acc[3] + IF again THEN 1 ELSE 0>>

Erase(g, acc, a) ==
    LET s == acc[1]
        ps == PagesOf(g, a)
        first == PageOf(g, a[2])
    IN  IF a[4] = 0 THEN acc
        ELSE <<[s EXCEPT !.n = [p \in 1..g.np |->
                     IF p \in ps THEN LET t == Covered(g, p, a) IN [u \in 1..Units(g) |-> IF u \in t THEN 0 ELSE @[p][u]]
                     ELSE @[p]],
                   !.er = [p \in 1..g.np |-> IF p \in ps THEN @[p] + 1 ELSE @[p]],
                   !.nxt = first % g.np],
               acc[2] \cup (IF s.ff /\ s.nxt \notin {-1, first - 1} THEN {"order"} ELSE {}),
               acc[3]>>

Apply(g, acc, a) == IF VAccess(g, a) # {} THEN <<acc[1], acc[2] \cup VAccess(g, a), acc[3]>>
                    ELSE IF a[1] = 0 THEN Write(g, acc, a) ELSE Erase(g, acc, a)

(***************************************************************************)
(* One API operation e with its accesses e.fo (in order) and e.rd (a set). *)
(***************************************************************************)
\* how many items may be deleted
Deletions(e) ==
    CASE e.o \in {"remove", "removeall"} -> 1000000
      [] e.o = "pop" -> 1
      [] e.o = "iter" -> Cardinality({j \in 1..Len(e.i) : Len(e.i[j]) = 2 /\ e.pops /\ e.i[j][2] > 0})
      [] OTHER -> 0
\* operations that need no space do not erase; a queue read may reclaim pages that were popped
MayErase(e) ==
    \/ e.o \in {"store", "push", "pusho"} /\ e.r \in {"ok", "full"}
    \/ e.o \in {"pop", "peek"} \/ (e.o = "iter" /\ e.pops)
    \/ e.o = "eraseall"

Op(g, s, e) ==
    LET acc == FoldLeft(LAMBDA x, a : Apply(g, x, a), <<s, {}, 0>>, e.fo)
        d == acc[1]
        all == e.o = "eraseall"
        ff == s.ff /\ e.f = "none" /\ e.r \notin {"bufsmall", "bufbig"}
        lo == CHOOSE x \in {d.er[p] : p \in 1..g.np} : \A p \in 1..g.np : d.er[p] >= x
    IN  [s |-> IF all THEN [d EXCEPT !.er = [p \in 1..g.np |-> 0], !.nxt = -1, !.ff = ff]
                      ELSE [d EXCEPT !.ff = ff],
         viol |-> (acc[2] \ (IF all THEN {"order"} ELSE {}))
             \cup UNION {VRead(g, e.rd[j]) : j \in 1..Len(e.rd)}
             \cup (IF acc[3] > Deletions(e) THEN {"twice"} ELSE {})
             \cup (IF ff /\ ~all /\ \E p \in 1..g.np : d.er[p] > lo + 1 THEN {"level"} ELSE {})
             \cup (IF ff /\ ~MayErase(e) /\ \E j \in 1..Len(e.fo) : e.fo[j][1] = 1 THEN {"needless"} ELSE {})]
=============================================================================
