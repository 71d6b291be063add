---------------------------- MODULE MapContract ----------------------------
(* What a user of the map may rely on, as a relation between the contents    *)
(* before an operation, the operation's observable event and the contents    *)
(* after it.  The same operators are used by                                 *)
(*   MapContractMC  closed model: every history of permitted steps, checked  *)
(*                  against the history-level statement of the properties    *)
(*   MapImpl        implementation-shaped model (pages, items, crash points),*)
(*                  checked to refine this contract                          *)
(*   MapTrace       validation of histories recorded from the real code      *)
(*                                                                           *)
(* Contents: a sequence over the keys 1..NK; 0 = absent, otherwise value id. *)
(* Event e:  o  operation        k key (0: none)     v value id (store)      *)
(*           n  item length      r result tag        x value fetched (0: none)*)
(*           f  "none" or how the operation was interrupted                  *)
(*              (crash err cancel rerr rcancel)                              *)
(*           c  contents seen by a fresh, uncached instance afterwards       *)
(*           i  list of <<key, value>> (iteration only)                      *)
(*           u  buffer length (only in traces with odd buffers)              *)
(* Configuration g: hdr, word, cap, klen (per key), vlen (per value id)      *)
EXTENDS Integers, Sequences, FiniteSets

Keys(c) == DOMAIN c
Put(c, k, v) == [c EXCEPT ![k] = v]
Empty(c) == [k \in Keys(c) |-> 0]

RoundUp(n, w) == ((n + w - 1) \div w) * w
Foot(g, n) == g.hdr + RoundUp(n, g.word)
RECURSIVE SumFoot(_, _, _)
SumFoot(g, c, k) ==
    IF k = 0 THEN 0
    ELSE SumFoot(g, c, k - 1)
         + IF c[k] > 0 THEN Foot(g, g.klen[k] + g.vlen[c[k]]) ELSE 0
MaxItem(g) == g.cap - g.hdr

Mutators == {"store", "storefail", "remove", "removeall", "eraseall"}
Refusals == {"full", "toobig", "bufsmall", "bufbig", "ser"}

\* Contents an operation must leave when it reports success.
OkPost(c, e, d) ==
    CASE e.o = "store"     -> d = Put(c, e.k, e.v)
      [] e.o = "remove"    -> d = Put(c, e.k, 0)
      [] e.o = "removeall" -> d = Empty(c)
      [] e.o = "eraseall"  -> d = Empty(c)
      [] OTHER             -> d = c

\* Contents an operation may leave when it was interrupted.
IntPost(c, e, d) ==
    CASE e.o = "store"     -> d \in {c, Put(c, e.k, e.v)}
      [] e.o = "remove"    -> d \in {c, Put(c, e.k, 0)}
      [] e.o = "removeall" -> \A k \in Keys(c) : d[k] \in {c[k], 0}
      [] e.o = "eraseall"  -> TRUE   \* erasing is not atomic; only judged on success
      [] OTHER             -> d = c

\* Which result tags an uninterrupted operation may give with a sufficient buffer.
Tags(e) ==
    CASE e.o = "store"     -> {"ok", "full", "toobig"}
      [] e.o = "storefail" -> {"ser"}
      [] e.o = "fetchbad"  -> {"ok", "ser"}
      [] OTHER             -> {"ok"}
\* ... and additionally with an odd buffer.
BufTags == {"bufsmall", "bufbig", "ser"}

LastFor(l, k) ==
    LET S == {j \in 1..Len(l) : l[j][1] = k}
    IN  IF S = {} THEN 0 ELSE l[CHOOSE j \in S : \A m \in S : m <= j][2]

(***************************************************************************)
(* The clauses.  Each names what an event violates.                        *)
(*   c contents before, d contents after, h set of <<k, v>> ever stored    *)
(***************************************************************************)
Has(e, f) == f \in DOMAIN e
Interrupted(e) == e.f # "none"
\* the longest item that fits, of all that occur in the history, rounded up: the buffer
\* size the documentation asks for
RECURSIVE MaxUpTo(_, _, _)
MaxUpTo(q, n, lim) == IF n = 0 THEN 0
                      ELSE LET m == MaxUpTo(q, n - 1, lim)
                           IN  IF q[n] > m /\ q[n] <= lim THEN q[n] ELSE m
Longest(g) == LET kl == MaxUpTo(g.klen, Len(g.klen), MaxItem(g))
              IN  RoundUp(kl + MaxUpTo(g.vlen, Len(g.vlen), MaxItem(g)), g.word)
OddBuf(g, e) == Has(e, "u") /\ e.u < Longest(g)

\* no internal error, no panic; flash errors and cancellation only when one was injected
VResult(e) ==
    (IF e.r \in {"corrupt", "logic", "panic"} THEN {"result"} ELSE {})
    \cup (IF e.r \in {"storage", "cancel"} /\ ~Interrupted(e) THEN {"result"} ELSE {})
    \cup (IF e.o = "badflash" THEN {"access"} ELSE {})
\* a fresh instance can read every key (after an interrupted erase of everything nothing is
\* promised until that erase has been repeated, which the drivers do next)
VObserve(e, d) == IF e.o = "eraseall" /\ Interrupted(e) THEN {}
                  ELSE IF \E k \in Keys(d) : d[k] < 0 THEN {"observe"} ELSE {}

VTag(g, e) ==
    IF e.r \in {"corrupt", "logic", "panic", "storage", "cancel"} \/ e.o = "badflash" THEN {}
    ELSE IF e.r \in Tags(e) THEN {}
    ELSE IF OddBuf(g, e) /\ e.r \in BufTags THEN {}
    ELSE {"tag"}

VValue(c, e) == IF e.o = "fetch" /\ e.r = "ok" /\ e.x # c[e.k] THEN {"value"} ELSE {}
\* a fetch that cannot decode must say so unless there is nothing to decode
VDecode(g, c, e) ==
    IF e.o = "fetchbad" /\ ~Interrupted(e) /\ ~OddBuf(g, e)
       /\ ((e.r = "ok") # (c[e.k] = 0)) THEN {"decode"} ELSE {}

VEffect(c, e, d) ==
    IF e.o = "badflash" THEN {}
    ELSE IF e.r = "ok" THEN IF OkPost(c, e, d) THEN {} ELSE {"effect"}
    ELSE IF Interrupted(e) THEN IF IntPost(c, e, d) THEN {} ELSE {"interrupt"}
    \* not interrupted, not successful: nothing may have changed (only a removal may
    \* have got as far as removing, when a too small buffer stops it)
    ELSE IF e.o \in {"remove", "removeall"} /\ IntPost(c, e, d) THEN {}
    ELSE IF d # c THEN {"refuse"} ELSE {}

\* crash points of this operation: every content seen after a restart
VCrash(c, e) ==
    IF Has(e, "b") /\ e.o # "eraseall"
       /\ \E j \in 1..Len(e.b) : \/ ~IntPost(c, e, e.b[j])
                                 \/ \E k \in Keys(c) : e.b[j][k] < 0
    THEN {"crash"} ELSE {}

VIter(c, e, h) ==
    IF e.o # "iter" \/ ~Has(e, "i") THEN {}
    ELSE (IF \E j \in 1..Len(e.i) : e.i[j] \notin h THEN {"iter-value"} ELSE {})
         \cup (IF \E j \in 1..Len(e.i) : e.i[j][1] \in Keys(c) /\ c[e.i[j][1]] = 0
               THEN {"iter-absent"} ELSE {})
         \cup (IF e.r = "ok" /\ \E k \in Keys(c) : c[k] > 0 /\ LastFor(e.i, k) # c[k]
               THEN {"iter-missing"} ELSE {})

\* never refused as full while everything present plus the new item fits one page
VFull(g, c, e) ==
    IF e.o = "store" /\ e.r = "full"
       /\ (\A k \in Keys(c) : c[k] >= 0)
       /\ SumFoot(g, c, Len(c)) + Foot(g, e.n) <= g.cap
    THEN {"full"} ELSE {}
VTooBig(g, e) ==
    IF e.o # "store" \/ Interrupted(e) THEN {}
    ELSE IF e.r = "toobig" /\ RoundUp(e.n, g.word) <= MaxItem(g) THEN {"toobig"}
    ELSE IF RoundUp(e.n, g.word) > MaxItem(g) /\ ~(Has(e, "u") /\ e.u < e.n + g.word)
            /\ e.r # "toobig" THEN {"toobig"}
    ELSE {}
\* too small a buffer must be reported for the item itself
VBuf(g, c, e) ==
    IF ~Has(e, "u") \/ Interrupted(e) THEN {}
    ELSE (IF e.o = "fetch" /\ c[e.k] > 0 /\ e.r = "ok"
             /\ e.u < g.klen[e.k] + g.vlen[c[e.k]] THEN {"buf"} ELSE {})
         \cup (IF e.o = "store" /\ e.r = "ok" /\ e.u < e.n THEN {"buf"} ELSE {})
         \* and the size that is asked for is more than was given, and not more than documented
         \cup (IF e.r = "bufsmall" /\ (e.bn <= e.u \/ e.bn > Longest(g)) THEN {"buf"} ELSE {})

\* results and contents of all caches (lockstep traces)
VCache(e) ==
    (IF Has(e, "rs") /\ \E j \in 2..Len(e.rs) : e.rs[j] # e.rs[1] THEN {"cache-result"} ELSE {})
    \cup (IF Has(e, "cs") /\ \E j \in 2..Len(e.cs) : e.cs[j] # e.cs[1] THEN {"cache-content"} ELSE {})

Viol(g, c, e, d, h) ==
    VResult(e) \cup VObserve(e, d) \cup VTag(g, e) \cup VValue(c, e) \cup VDecode(g, c, e)
    \cup VEffect(c, e, d) \cup VCrash(c, e) \cup VIter(c, e, h) \cup VFull(g, c, e)
    \cup VTooBig(g, e) \cup VBuf(g, c, e) \cup VCache(e)
=============================================================================
