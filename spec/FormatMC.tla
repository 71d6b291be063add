------------------------------- MODULE FormatMC -------------------------------
(* The representation itself, on one page: whatever items are appended and     *)
(* deleted, wherever that is interrupted (after each unit of each write), and  *)
(* whichever bit of an item changes, the page decodes to what it has to.       *)
EXTENDS Format, TLC
CONSTANTS W, R, P,     \* write, read unit, page size
          Unit,        \* bytes that take effect at once
          Datas,       \* numbers of the data that items can have
          MaxItems,
          EarlyReuse   \* TRUE: (wrong) a word after a torn header is used again
VARIABLES img,         \* the page
          live         \* what has to be readable: sequence of data
vars == <<img, live>>
g == [w |-> W, r |-> R, p |-> P, n |-> 1]

D(i) == CASE i = 0 -> <<>>
          [] i = 1 -> <<0>>
          [] i = 2 -> <<255, 255, 255>>
          [] i = 3 -> <<1, 2, 3, 4>>
          [] i = 4 -> <<0, 0, 0, 0, 0>>
          [] i = 5 -> <<17, 34, 51, 68, 85, 255, 255, 255>>
          [] i = 6 -> <<9, 9>>
          [] i = 7 -> <<32>>      \* its checksum starts with the byte that ends the length checksum of 2
          [] OTHER -> <<255>>
Le16(x) == <<x % 256, x \div 256>>
Header(len, crc) == Le16(crc[2]) \o Le16(crc[1]) \o Le16(len) \o Le16(Crc16(Le16(len))) \o [i \in 1..(Hdr(g) - 8) |-> 255]
(* the bytes of an item in the order in which they are written                *)
Encode(d) == Header(Len(d), Crc32(d)) \o d \o [i \in 1..(Up(g, Len(d)) - Len(d)) |-> 0]

And8(a, b) == IF a = 255 THEN b ELSE IF b = 255 THEN a ELSE IF b = 0 THEN 0 ELSE a & b
Put(m, at, bs) == [i \in DOMAIN m |-> IF i > at /\ i <= at + Len(bs) THEN And8(m[i], bs[i - at]) ELSE m[i]]

(* where the next item goes: behind everything that may have been written,     *)
(* also behind the whole of a header that was written partially                *)
FreeSpot(m) ==
    LET w == Word(g)
        h == Hdr(g)
        end == P - w
        Max2(a, b) == IF a > b THEN a ELSE b
        Visit(acc, a) ==
            IF acc.done \/ a < acc.next THEN acc
            ELSE IF a + h > end \/ \A j \in 0..(h - 1) : B(m, a + j) = 255
            THEN [acc EXCEPT !.done = TRUE, !.free = IF EarlyReuse THEN a ELSE Max2(a, acc.prot)]
            ELSE LET len == B(m, a + 4) + 256 * B(m, a + 5)
                     nx == a + h + Up(g, len)
                 IN  IF Crc16(<<B(m, a + 4), B(m, a + 5)>>) # B(m, a + 6) + 256 * B(m, a + 7) \/ nx > end
                     THEN [acc EXCEPT !.next = a + w, !.free = end, !.prot = IF a >= @ THEN a + h ELSE @]
                     ELSE [acc EXCEPT !.next = nx, !.free = nx]
    IN  FoldLeft(Visit, [next |-> w, done |-> FALSE, prot |-> 0, free |-> w], [k \in 1..((P - 2 * w) \div w) |-> w + (k - 1) * w]).free

Decoded(m) == LET is == Items(g, m) IN [k \in DOMAIN is |-> is[k].d]

Init == img = [i \in 1..P |-> IF i <= Word(g) THEN 0 ELSE 255] /\ live = <<>>
Fits(d) == FreeSpot(img) + Len(Encode(d)) <= P - Word(g)
Torn(at, bs) == {Put(img, at, SubSeq(bs, 1, k * Unit)) : k \in 0..(Len(bs) \div Unit)} \cup {Put(img, at, bs)}
(* append, possibly interrupted: what is readable afterwards is judged by the  *)
(* invariant below, so the next state just takes what decodes                  *)
AppendItem == \E i \in Datas : Fits(D(i)) /\ Len(Walk(g, img, 0).items) < MaxItems /\
              \E m \in Torn(FreeSpot(img), Encode(D(i))) :
                 img' = m /\ live' = IF Decoded(m) = live THEN live ELSE Append(live, D(i))
Deletion(it) == SubSeq(Header(it.len, <<0, 0>>), 1, Hdr(g))
DeleteItem == LET is == Items(g, img) IN
              \E k \in DOMAIN is : \E m \in Torn(is[k].a, Deletion(is[k])) :
                 img' = m /\ live' = IF Decoded(m) = live THEN live ELSE SubSeq(live, 1, k - 1) \o SubSeq(live, k + 1, Len(live))
Next == AppendItem \/ DeleteItem
Spec == Init /\ [][Next]_vars

(* interrupted or not, a write gives the old or the new contents, nothing else *)
Atomic == Decoded(img) = live
(* a finished append is readable: no remains of interrupted ones get in the way *)
Appends == \A i \in Datas : Fits(D(i)) => Decoded(Put(img, FreeSpot(img), Encode(D(i)))) = Append(live, D(i))
Blank == FreeSpot(img) + Hdr(g) <= P - Word(g) => \A x \in (FreeSpot(img) + 1)..P : img[x] = 255
(* any changed bit of data or its checksum hides that item and no other        *)
Flip(m, a, b) == [m EXCEPT ![a + 1] = @ ^^ (2 ^ b)]
Bits == LET is == Items(g, img) IN
        \A k \in DOMAIN is : \A x \in (is[k].a..(is[k].a + 3)) \cup ((is[k].a + Hdr(g))..(is[k].a + Hdr(g) + is[k].len - 1)) : \A b \in 0..7 :
            Decoded(Flip(img, x, b)) = SubSeq(live, 1, k - 1) \o SubSeq(live, k + 1, Len(live))
(* changed bits of markers do not change the state of the page                 *)
Marks == \A x \in (0..(Word(g) - 1)) \cup ((P - Word(g))..(P - 1)) : \A b \in 0..7 : States(g, Flip(img, x, b)) = States(g, img)
View == img
=============================================================================
