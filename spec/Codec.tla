-------------------------------- MODULE Codec --------------------------------
(* K01: byte layout of the built-in key and value types.                     *)
(* A type is a record with field k:                                          *)
(*   int n      n-byte two's complement number or float, little endian; the  *)
(*              value is its sequence of hex digits, most significant first  *)
(*   arr n c    c numbers of n bytes, one after the other                    *)
(*   bool       one byte 0 / 1;  opt t : one byte 0, or 1 and the value      *)
(*   unit       nothing;  raw n : n bytes as they are                        *)
(*   bytes      all the bytes there are (values only)                        *)
(*   pre        16-bit little endian length, then the bytes (keys)           *)
(*   var n, vstr, pc f : postcard numbers (LEB128), strings, structs         *)
(* cap >= 0 bounds the length; utf: the bytes have to be UTF-8.              *)
EXTENDS Naturals, Integers, Sequences

Cat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

LE(n, v) == [i \in 1..n |-> v[2 * (n - i) + 1] * 16 + v[2 * (n - i) + 2]]
UnLE(n, b) == [i \in 1..(2 * n) |-> LET y == b[n - ((i - 1) \div 2)] IN IF i % 2 = 1 THEN y \div 16 ELSE y % 16]

(* LEB128: groups of 7 bits, least significant first                         *)
Bit(v, i) == LET d == v[Len(v) - (i \div 4)] IN (d \div (2 ^ (i % 4))) % 2    \* i-th bit of hex digits v
Bits(v) == 4 * Len(v)
Group(v, j) == LET F[i \in 0..7] == IF i = 0 THEN 0
                                    ELSE F[i - 1] + (IF 7 * j + i - 1 < Bits(v) THEN Bit(v, 7 * j + i - 1) * (2 ^ (i - 1)) ELSE 0)
               IN F[7]
Groups(v) == LET hi == {i \in 0..(Bits(v) - 1) : Bit(v, i) = 1}
             IN  IF hi = {} THEN 1 ELSE (CHOOSE i \in hi : \A k \in hi : k <= i) \div 7 + 1
Leb(v) == LET m == Groups(v) IN [j \in 1..m |-> Group(v, j - 1) + (IF j < m THEN 128 ELSE 0)]
NatDigits(x) == <<x \div 4096, (x \div 256) % 16, (x \div 16) % 16, x % 16>>

RECURSIVE Enc(_, _)
Enc(t, v) ==
    CASE t.k = "int" -> LE(t.n, v)
      [] t.k = "arr" -> Cat([i \in 1..t.c |-> LE(t.n, v[i])])
      [] t.k = "bool" -> IF v THEN <<1>> ELSE <<0>>
      [] t.k = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(t.t, v[1])
      [] t.k = "unit" -> <<>>
      [] t.k = "raw" -> v
      [] t.k = "bytes" -> v
      [] t.k = "pre" -> <<Len(v) % 256, Len(v) \div 256>> \o v
      [] t.k = "var" -> Leb(v)
      [] t.k = "vstr" -> Leb(NatDigits(Len(v))) \o v
      [] t.k = "pc" -> Cat([i \in 1..Len(t.f) |-> Enc(t.f[i], v[i])])

Cont(b) == b \in 128..191
RECURSIVE Utf8(_)
Utf8(s) ==
    IF s = <<>> THEN TRUE
    ELSE LET a == s[1]
             c(i) == Len(s) >= i /\ Cont(s[i])
         IN CASE a < 128 -> Utf8(Tail(s))
              [] a \in 194..223 -> c(2) /\ Utf8(Drop(s, 2))
              [] a \in 224..239 -> c(2) /\ c(3) /\ (a = 224 => s[2] >= 160) /\ (a = 237 => s[2] <= 159) /\ Utf8(Drop(s, 3))
              [] a \in 240..244 -> c(2) /\ c(3) /\ c(4) /\ (a = 240 => s[2] >= 144) /\ (a = 244 => s[2] <= 143) /\ Utf8(Drop(s, 4))
              [] OTHER -> FALSE
Content(t, b) == (t.cap >= 0 => Len(b) <= t.cap) /\ (t.utf => Utf8(b))

(* Decoding: [ok, v, n] with n the bytes used, or ok = FALSE.  `open': the   *)
(* input is no encoding, but nothing says that it must be refused.           *)
Bad == [ok |-> FALSE, open |-> FALSE, n |-> 0, v |-> <<>>]
Open == [ok |-> FALSE, open |-> TRUE, n |-> 0, v |-> <<>>]
Good(v, n) == [ok |-> TRUE, open |-> FALSE, n |-> n, v |-> v]
RECURSIVE Dec(_, _)
Dec(t, b) ==
    CASE t.k = "int" -> IF Len(b) < t.n THEN Bad ELSE Good(UnLE(t.n, Take(b, t.n)), t.n)
      [] t.k = "arr" -> IF Len(b) < t.n * t.c THEN Bad
                        ELSE Good([i \in 1..t.c |-> UnLE(t.n, SubSeq(b, (i - 1) * t.n + 1, i * t.n))], t.n * t.c)
      [] t.k = "bool" -> IF b = <<>> THEN Bad ELSE IF b[1] > 1 THEN Open ELSE Good(b[1] = 1, 1)
      [] t.k = "opt" -> IF b = <<>> THEN Bad
                        ELSE IF b[1] > 1 THEN Open
                        ELSE IF b[1] = 0 THEN Good(<<>>, 1)
                        ELSE LET d == Dec(t.t, Tail(b)) IN IF d.ok THEN Good(<<d.v>>, d.n + 1) ELSE d
      [] t.k = "unit" -> Good(<<>>, 0)
      [] t.k = "raw" -> IF Len(b) < t.n THEN Bad ELSE Good(Take(b, t.n), t.n)
      [] t.k = "bytes" -> IF Content(t, b) THEN Good(b, Len(b)) ELSE Bad
      [] t.k = "pre" -> IF Len(b) < 2 THEN Bad
                        ELSE LET m == b[1] + 256 * b[2]
                             IN  IF Len(b) < m + 2 \/ ~Content(t, SubSeq(b, 3, m + 2)) THEN Bad ELSE Good(SubSeq(b, 3, m + 2), m + 2)
      [] OTHER -> Open

Legal(t, v) == t.k = "pre" => Len(v) <= 65535

(* Clauses violated by a recorded call on a value v of type t.               *)
ViolSer(t, v, e) ==
    LET x == Enc(t, v)
    IN  IF e.res = "panic" THEN {"panic"}
        ELSE IF e.b < Len(x) THEN (IF e.res # "err" THEN {"short"} ELSE {})
        ELSE IF e.res # "ok" THEN {"refused"}
        ELSE (IF e.n # Len(x) \/ e.out # x THEN {"layout"} ELSE {})
StartsWith(b, x) == Len(b) >= Len(x) /\ Take(b, Len(x)) = x
ViolDe(t, v, e) ==
    LET d == Dec(t, e.inp)
        pc == t.k = "pc"
        x == Enc(t, v)
    IN  IF e.res = "panic" THEN {"panic"}
        ELSE IF pc /\ StartsWith(e.inp, x)
             THEN (IF e.res # "ok" THEN {"refused"} ELSE IF e.v # v \/ e.n # Len(x) THEN {"value"} ELSE {})
        ELSE IF pc /\ StartsWith(x, e.inp) THEN (IF e.res # "err" THEN {"short"} ELSE {})
        ELSE IF d.open THEN (IF e.res = "ok" /\ e.n > Len(e.inp) THEN {"value"} ELSE {})
        ELSE IF ~d.ok THEN (IF e.res # "err" THEN {"short"} ELSE {})
        ELSE IF e.res # "ok" THEN {"refused"}
        ELSE IF e.v # d.v \/ e.n # d.n THEN {"value"} ELSE {}
(* get_len need not look at the content                                      *)
ViolLen(t, v, e) ==
    LET d == Dec(t, e.inp)
    IN  IF e.res = "panic" THEN {"panic"}
        ELSE IF d.ok /\ (e.res # "ok" \/ e.n # d.n) THEN {"length"} ELSE {}
(* keys of len bytes, all the same, in long buffers                          *)
ViolLong(len, e) ==
    IF e.res = "panic" THEN {"panic"}
    ELSE IF e.op = "lser"
    THEN IF len > 65535 \/ e.b < len + 2 THEN (IF e.res # "err" THEN {"short"} ELSE {})
         ELSE IF e.res # "ok" THEN {"refused"}
         ELSE IF e.n # len + 2 \/ e.pfx # <<len % 256, len \div 256>> \/ ~e.same THEN {"layout"} ELSE {}
    ELSE IF e.b < len + 2 THEN (IF e.res # "err" THEN {"short"} ELSE {})
         ELSE IF e.res # "ok" THEN {"refused"}
         ELSE IF e.n # len + 2 \/ ~e.same THEN {"value"} ELSE {}
Viol(T, e) ==
    IF T.role = "long" THEN ViolLong(T.v, e)
    ELSE CASE e.op = "ser" -> ViolSer(T.ty, T.v, e)
           [] e.op = "de" -> ViolDe(T.ty, T.v, e)
           [] e.op = "len" -> ViolLen(T.ty, T.v, e)
=============================================================================
