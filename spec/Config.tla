------------------------------- MODULE Config -------------------------------
(* G01: which flash ranges and geometries a map (at least two pages) and a   *)
(* queue (at least one) must accept.  Addresses are pairs <<pages, bytes>>,  *)
(* so that the whole 32-bit range fits into TLC's integers.                  *)
EXTENDS Naturals

Max2(a, b) == IF a > b THEN a ELSE b
Up(n, w) == ((n + w - 1) \div w) * w
Word(g) == Max2(g.w, g.r)
Header(g) == Up(8, Word(g))
MaxWord == 32
MinPages(who) == IF who = "map" THEN 2 ELSE 1

(* space an item of n data bytes takes, and the data area of a page          *)
Footprint(g, n) == Header(g) + Up(n, Word(g))
DataArea(g) == IF g.p >= 2 * Word(g) THEN g.p - 2 * Word(g) ELSE 0
Fits(g, n) == Footprint(g, n) <= DataArea(g)

(* range from a.q pages + a.r bytes to b.q pages + b.r bytes                 *)
Shorter(a, b, n) ==  \* b - a < n pages (also if reversed)
    \/ b.q < a.q + n
    \/ b.q = a.q + n /\ b.r < a.r
Faults(g, who, a, b) ==
    (IF a.r # 0 THEN {"start"} ELSE {}) \cup
    (IF b.r # 0 THEN {"end"} ELSE {}) \cup
    (IF Shorter(a, b, MinPages(who)) THEN {"small"} ELSE {}) \cup
    (IF ~Fits(g, 1) THEN {"pages"} ELSE {}) \cup
    (IF Word(g) > MaxWord THEN {"word"} ELSE {})

(* clauses violated by one recorded constructor call                         *)
Viol(g, who, e) ==
    LET f == Faults(g, who, [q |-> e.sq, r |-> e.sr], [q |-> e.eq, r |-> e.er])
    IN  (IF f = {} /\ e.res # "ok" THEN {"refused"} ELSE {}) \cup
        (IF f # {} /\ e.res \notin f THEN {"accepted"} ELSE {}) \cup
        (IF e.new # (f = {}) THEN {"new"} ELSE {}) \cup
        (IF e.use \notin {"ok", "skip"} THEN {"unusable"} ELSE {})
=============================================================================
