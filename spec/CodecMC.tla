------------------------------- MODULE CodecMC -------------------------------
(* Closed model of K01: for small types the layout of Codec loses nothing    *)
(* (decoding an encoding followed by anything gives the value and its        *)
(* length), every proper prefix is refused, and no encoding of a key is the  *)
(* start of another key's encoding, so different keys are told apart inside  *)
(* an item.                                                                  *)
EXTENDS Codec
CONSTANTS Byte,     \* bytes used in contents
          Digit,    \* hex digits used in numbers
          MaxLen
SeqsOf(S, n) == UNION {[1..m -> S] : m \in 0..n}
Types == {
    [k |-> "int", n |-> 1], [k |-> "int", n |-> 2], [k |-> "arr", n |-> 1, c |-> 2], [k |-> "arr", n |-> 2, c |-> 1],
    [k |-> "arr", n |-> 1, c |-> 0],
    [k |-> "bool"], [k |-> "opt", t |-> [k |-> "int", n |-> 1]], [k |-> "opt", t |-> [k |-> "opt", t |-> [k |-> "bool"]]],
    [k |-> "unit"], [k |-> "raw", n |-> 2], [k |-> "bytes", cap |-> -1, utf |-> FALSE], [k |-> "bytes", cap |-> 2, utf |-> FALSE],
    [k |-> "pre", cap |-> -1, utf |-> FALSE], [k |-> "pre", cap |-> 2, utf |-> FALSE], [k |-> "pre", cap |-> -1, utf |-> TRUE]}
RECURSIVE Vals(_)
Vals(t) == CASE t.k = "int" -> [1..(2 * t.n) -> Digit]
             [] t.k = "arr" -> [1..t.c -> [1..(2 * t.n) -> Digit]]
             [] t.k = "bool" -> BOOLEAN
             [] t.k = "opt" -> {<<>>} \cup {<<x>> : x \in Vals(t.t)}
             [] t.k = "unit" -> {<<>>}
             [] t.k = "raw" -> [1..t.n -> Byte]
             [] OTHER -> {s \in SeqsOf(Byte, MaxLen) : Content(t, s)}
Key(t) == t.k \in {"int", "unit", "raw", "pre"}
Tails == SeqsOf(Byte, 2)

VARIABLES t, v, w
vars == <<t, v, w>>
Init == t \in Types /\ v \in Vals(t) /\ w = v
Next == w' \in Vals(t) /\ w = v /\ UNCHANGED <<t, v>>
Spec == Init /\ [][Next]_vars

RoundTrip == LET e == Enc(t, v) IN
    /\ Dec(t, e) = Good(v, Len(e))
    /\ t.k # "bytes" => \A x \in Tails : Dec(t, e \o x) = Good(v, Len(e))
Truncated == LET e == Enc(t, v) IN t.k # "bytes" => \A n \in 0..(Len(e) - 1) : ~Dec(t, Take(e, n)).ok
Distinct == (Key(t) /\ v # w) => ~StartsWith(Enc(t, w), Enc(t, v))
BytesOnly == \A i \in DOMAIN Enc(t, v) : Enc(t, v)[i] \in 0..255
(* Leb128 groups give back the number                                        *)
LebBack == t.k = "int" => LET g == Leb(v) IN
    /\ \A i \in DOMAIN g : (g[i] >= 128) = (i < Len(g))
    /\ LET F[i \in 0..Len(g)] == IF i = 0 THEN 0 ELSE F[i - 1] + (g[i] % 128) * (128 ^ (i - 1))
           N[i \in 0..Len(v)] == IF i = 0 THEN 0 ELSE N[i - 1] * 16 + v[i]
       IN F[Len(g)] = N[Len(v)]
=============================================================================
