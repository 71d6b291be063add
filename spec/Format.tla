-------------------------------- MODULE Format --------------------------------
(* The on-flash representation.  A decoder from bytes to the contents they    *)
(* denote, written from the documentation of the format:                      *)
(*   page   = start marker word | items back to back | end marker word        *)
(*            marked: at least half a byte of zero bits in the first / last   *)
(*            read unit.  both marked: closed, only start: partially open,    *)
(*            none: open (nothing in it)                                      *)
(*   item   = checksum of the data (4) | length (2) | checksum of the length  *)
(*            (2) | padding to a word | data | padding to a word              *)
(*            checksum 0: deleted.  A header of nothing but 0xFF: no more     *)
(*            items.  A header that cannot be one is skipped word by word.    *)
(* A geometry g has w, r (write and read unit), p (page size), n (pages).     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Bitwise

Word(g) == IF g.w > g.r THEN g.w ELSE g.r
Up(g, x) == ((x + Word(g) - 1) \div Word(g)) * Word(g)
Hdr(g) == Up(g, 8)

-----------------------------------------------------------------------------
(* checksums (32 bits as <<high, low>> halves)                                *)
T16 == [i \in 0..255 |->
    LET F[k \in 0..8] == IF k = 0 THEN i ELSE IF F[k - 1] % 2 = 1 THEN (F[k - 1] \div 2) ^^ 6702 ELSE F[k - 1] \div 2 IN F[8]]
Crc16(s) ==
    LET c == FoldLeft(LAMBDA a, b : T16[(a % 256) ^^ b] ^^ (a \div 256), 65535, s)
        x == 65535 - c
    IN  IF x = 65535 THEN 65534 ELSE x

Half(v) == LET lo == (v[2] \div 2) + ((v[1] % 2) * 32768)
               hi == v[1] \div 2
           IN IF v[2] % 2 = 1 THEN <<hi ^^ 33526, lo ^^ 15224>> ELSE <<hi, lo>>
T32 == [i \in 0..255 |-> LET F[k \in 0..8] == IF k = 0 THEN <<0, i>> ELSE Half(F[k - 1]) IN F[8]]
Raw32(s) ==
    LET c == FoldLeft(LAMBDA a, b : LET t == T32[(a[2] % 256) ^^ b]
                                    IN <<(a[1] \div 256) ^^ t[1], ((a[2] \div 256) + (a[1] % 256) * 256) ^^ t[2]>>,
                      <<61166, 61166>>, s)
    IN  <<65535 - c[1], 65535 - c[2]>>
Crc32(s) == LET v == Raw32(s)
            IN  IF v = <<0, 0>> THEN <<0, 1>>
                ELSE IF v[2] % 256 \in {0, 255} THEN <<v[1], v[2] ^^ 1>> ELSE v

-----------------------------------------------------------------------------
(* pages                                                                      *)
B(img, a) == img[a + 1]
ZeroBits == [b \in 0..255 |-> LET F[k \in 0..8] == IF k = 0 THEN 0 ELSE F[k - 1] + 1 - ((b \div (2 ^ (k - 1))) % 2) IN F[8]]
Zeros(img, a, n) == FoldLeft(LAMBDA x, b : x + ZeroBits[b], 0, SubSeq(img, a + 1, a + n))
Marked(img, a, n) == Zeros(img, a, n) >= 4
State(g, img, i) ==
    LET s == Marked(img, i * g.p, g.r)
        e == Marked(img, (i + 1) * g.p - g.r, g.r)
    IN  IF s /\ e THEN "closed" ELSE IF s THEN "partial" ELSE IF e THEN "half" ELSE "open"
States(g, img) == [i \in 1..g.n |-> State(g, img, i - 1)]

(* headers of a page: [a, len, crc] in order; free: where the items end       *)
Walk(g, img, i) ==
    LET w == Word(g)
        h == Hdr(g)
        first == i * g.p + w
        end == (i + 1) * g.p - w
        Visit(acc, a) ==
            IF acc.done \/ a < acc.next THEN acc
            ELSE IF a + h > end THEN [acc EXCEPT !.done = TRUE]
            ELSE IF \A j \in 0..(h - 1) : B(img, a + j) = 255 THEN [acc EXCEPT !.done = TRUE, !.free = a]
            ELSE LET len == B(img, a + 4) + 256 * B(img, a + 5)
                     lc == B(img, a + 6) + 256 * B(img, a + 7)
                     nx == a + h + Up(g, len)
                 IN  IF Crc16(<<B(img, a + 4), B(img, a + 5)>>) # lc \/ nx > end
                     THEN [acc EXCEPT !.next = a + w, !.skipped = TRUE]
                     ELSE [acc EXCEPT !.next = nx, !.free = nx,
                                      !.items = Append(@, [a |-> a, len |-> len,
                                          crc |-> <<B(img, a + 2) + 256 * B(img, a + 3), B(img, a) + 256 * B(img, a + 1)>>])]
    IN  FoldLeft(Visit, [next |-> first, done |-> FALSE, skipped |-> FALSE, free |-> first, items |-> <<>>],
                 [k \in 1..((g.p - 2 * w) \div w) |-> first + (k - 1) * w])

Data(g, img, it) == SubSeq(img, it.a + Hdr(g) + 1, it.a + Hdr(g) + it.len)
Deleted(it) == it.crc = <<0, 0>>
Intact(g, img, it) == Crc32(Data(g, img, it)) = it.crc
Present(g, img, it) == ~Deleted(it) /\ Intact(g, img, it)

-----------------------------------------------------------------------------
(* contents.  Pages in use follow each other on the ring, oldest first; the   *)
(* partially open one is the youngest.                                        *)
First(g, st) ==
    LET n == g.n
        nxt(i) == (i % n) + 1
        pa == {i \in 1..n : st[i] = "partial"}
        op == {i \in 1..n : st[i] = "open" /\ st[nxt(i)] # "open"}
    IN  IF pa # {} THEN nxt(CHOOSE i \in pa : \A j \in pa : i <= j)
        ELSE IF op # {} THEN nxt(CHOOSE i \in op : \A j \in op : i <= j)
        ELSE 1
Order(g, st) == SelectSeq([k \in 1..g.n |-> ((First(g, st) - 1 + k - 1) % g.n) + 1], LAMBDA i : st[i] \in {"closed", "partial"})

(* all items that can be read, oldest first: [a, d]                           *)
Items(g, img) ==
    FoldLeft(LAMBDA acc, i : acc \o
        [k \in DOMAIN SelectSeq(Walk(g, img, i - 1).items, LAMBDA it : Present(g, img, it)) |->
            LET it == SelectSeq(Walk(g, img, i - 1).items, LAMBDA x : Present(g, img, x))[k] IN [a |-> it.a, len |-> it.len, d |-> Data(g, img, it)]],
        <<>>, Order(g, States(g, img)))

QueueOf(items) == [k \in DOMAIN items |-> items[k].d]
(* keys: one byte id, then id % 3 more bytes                                  *)
KeyLen(id) == 1 + (id % 3)
ValueOf(d) == SubSeq(d, KeyLen(d[1]) + 1, Len(d))
MapOf(items, nk) == [k \in 0..(nk - 1) |->
    LET is == {i \in DOMAIN items : items[i].d # <<>> /\ items[i].d[1] = k}
    IN  IF is = {} THEN <<>> ELSE <<ValueOf(items[CHOOSE i \in is : \A j \in is : j <= i].d)>>]
Contents(g, kind, nk, items) == IF kind = "m" THEN MapOf(items, nk) ELSE QueueOf(items)

-----------------------------------------------------------------------------
(* what an uninterrupted history starting from blank flash leaves behind      *)
AllFF(img, a, b) == \A x \in (a + 1)..b : img[x] = 255
WellFormed(g, kind, img) ==
    LET st == States(g, img)
        w == Word(g)
        mark(a) == AllFF(img, a, a + w) \/ \A x \in (a + 1)..(a + w) : img[x] = 0
        o == Order(g, st)
    IN  /\ \A i \in 1..g.n : st[i] # "half" /\ mark((i - 1) * g.p) /\ mark(i * g.p - w)
        /\ \A i \in 1..g.n : st[i] = "open" => AllFF(img, (i - 1) * g.p, i * g.p)
        /\ \A i \in 1..g.n : st[i] # "open" =>
              LET wk == Walk(g, img, i - 1)
              IN  ~wk.skipped /\ AllFF(img, wk.free, i * g.p - w) /\ \A k \in DOMAIN wk.items : Deleted(wk.items[k]) \/ Intact(g, img, wk.items[k])
        \* used pages in a row, only the last one open for writing
        /\ \A k \in 1..(Len(o) - 1) : st[o[k]] = "closed" /\ o[k + 1] = (o[k] % g.n) + 1
        /\ kind = "m" => Len(o) < g.n

(* Where a wrong read has to be masked: the data of an item that is there, or *)
(* the length field of a header.                                              *)
MustMask(g, img, x) ==
    LET i == x \div g.p
        its == Walk(g, img, i).items
    IN  /\ State(g, img, i) \in {"closed", "partial"}
        /\ \E k \in DOMAIN its : \/ x \in (its[k].a + 4)..(its[k].a + 5)
                                 \/ x \in (its[k].a + Hdr(g))..(its[k].a + Hdr(g) + its[k].len - 1) /\ Present(g, img, its[k])
(* The readable item whose data or data checksum contains all given bytes.    *)
Hit(g, items, xs) == {k \in DOMAIN items : \A x \in xs : \/ x \in items[k].a..(items[k].a + 3)
                                                         \/ x \in (items[k].a + Hdr(g))..(items[k].a + Hdr(g) + items[k].len - 1)}
IsMarker(g, x) == LET o == x % g.p IN o < Word(g) \/ o >= g.p - Word(g)
=============================================================================
