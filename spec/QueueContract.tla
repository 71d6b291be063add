--------------------------- MODULE QueueContract ---------------------------
(* What a user of the queue may rely on, as a relation between the contents  *)
(* before an operation, the operation's observable event and the contents    *)
(* after it (see MapContract for how such a contract is used).               *)
(*                                                                           *)
(* Contents: a sequence of data ids, oldest first.                           *)
(* Event e:  o operation (push pusho pop peek iter maxfit space eraseall     *)
(*             renew reuse), pusho = push with permission to overwrite       *)
(*           v data id, n length (push)     r result tag                     *)
(*           x data id or number returned (0 / -1: nothing)                  *)
(*           f "none" or how the operation was interrupted                   *)
(*           c contents seen by a fresh, uncached instance afterwards        *)
(*           i list of <<data id, popped (0 no, 1 yes, 2 failed)>> (iter)    *)
(*           lim, pl  iteration limit, positions chosen to be popped         *)
(*           nd  whether a push without permission is refused as full        *)
(*           m p0 p1  reported max fit, result of pushing m and m+1 bytes    *)
(*           s  <<space left before, after>>                                 *)
(*           u buffer length     b contents after a crash at each point      *)
(* Configuration g: hdr, word, cap, np, vlen (per data id), fifo             *)
EXTENDS Integers, Sequences, FiniteSets

RoundUp(n, w) == ((n + w - 1) \div w) * w
Foot(g, n) == g.hdr + RoundUp(n, g.word)
RECURSIVE SumFoot(_, _, _)
SumFoot(g, q, m) == IF m = 0 THEN 0 ELSE SumFoot(g, q, m - 1) + Foot(g, g.vlen[q[m]])
MaxItem(g) == g.cap - g.hdr

Drop(q, m) == SubSeq(q, m + 1, Len(q))
\* q without the positions in P
RECURSIVE Without(_, _)
Without(q, P) ==
    IF q = <<>> THEN <<>>
    ELSE LET n == Len(q)
             r == Without(SubSeq(q, 1, n - 1), P)
         IN  IF n \in P THEN r ELSE Append(r, q[n])
\* how many oldest items one page erase may take
Droppable(g, q) == {m \in 0..Len(q) : SumFoot(g, q, m) <= g.cap}

Has(e, f) == f \in DOMAIN e
Interrupted(e) == e.f # "none"
Popped(e, st) == {j \in 1..Len(e.i) : e.i[j][2] \in st}

\* Contents an operation must leave when it reports success.
OkPost(g, q, e, d) ==
    CASE e.o = "push"     -> d = Append(q, e.v)
      [] e.o = "pusho"    -> IF e.nd THEN \E m \in Droppable(g, q) : d = Append(Drop(q, m), e.v)
                             ELSE d = Append(q, e.v)
      [] e.o = "pop"      -> d = IF q = <<>> THEN q ELSE Tail(q)
      \* (an iteration may go on after a call of it was interrupted)
      [] e.o = "iter"     -> d = Without(q, Popped(e, {1})) \/ (Interrupted(e) /\ d = Without(q, Popped(e, {1, 2})))
      [] e.o = "eraseall" -> d = <<>>
      [] OTHER            -> d = q

\* Contents an operation may leave when it was interrupted.
IntPost(g, q, e, d) ==
    CASE e.o = "push"     -> d \in {q, Append(q, e.v)}
      [] e.o = "pusho"    -> IF e.nd THEN \E m \in Droppable(g, q) :
                                            d \in {Drop(q, m), Append(Drop(q, m), e.v)}
                             ELSE d \in {q, Append(q, e.v)}
      [] e.o = "pop"      -> d \in {q, IF q = <<>> THEN q ELSE Tail(q)}
      [] e.o = "iter"     -> \E P \in {Popped(e, {1}), Popped(e, {1, 2})} : d = Without(q, P)
      [] e.o = "eraseall" -> TRUE
      [] OTHER            -> d = q

\* ... when the power fails at some point of it (the pops happen in order)
CrashPost(g, q, e, d) ==
    IF e.o = "iter"
    THEN \E m \in 0..Len(e.pl) : d = Without(q, {e.pl[j] : j \in 1..m})
    ELSE IntPost(g, q, e, d)

Tags(e) ==
    CASE e.o = "push"  -> {"ok", "full", "toobig"}
      [] e.o = "pusho" -> {"ok", "toobig"}
      [] OTHER         -> {"ok"}
BufTags == {"bufsmall", "bufbig"}
\* the longest item that fits, of all that occur in the history, rounded up: the buffer
\* size the documentation asks for
RECURSIVE MaxUpTo(_, _, _)
MaxUpTo(q, n, lim) == IF n = 0 THEN 0
                      ELSE LET m == MaxUpTo(q, n - 1, lim)
                           IN  IF q[n] > m /\ q[n] <= lim THEN q[n] ELSE m
Longest(g) == RoundUp(MaxUpTo(g.vlen, Len(g.vlen), MaxItem(g)), g.word)
OddBuf(g, e) == Has(e, "u") /\ e.u < Longest(g)
ReadsItem(e) == e.o \in {"pop", "peek", "iter"}

VResult(e) ==
    (IF e.r \in {"corrupt", "logic", "panic"} THEN {"result"} ELSE {})
    \cup (IF e.r \in {"storage", "cancel"} /\ ~Interrupted(e) THEN {"result"} ELSE {})
    \cup (IF e.o = "badflash" THEN {"access"} ELSE {})
VObserve(e, d) == IF e.o = "eraseall" /\ Interrupted(e) THEN {}
                  ELSE IF \E j \in 1..Len(d) : d[j] < 0 THEN {"observe"} ELSE {}
VTag(g, e) ==
    IF e.r \in {"corrupt", "logic", "panic", "storage", "cancel"} \/ e.o = "badflash" THEN {}
    ELSE IF e.r \in Tags(e) THEN {}
    ELSE IF e.o = "pusho" /\ e.r = "full" THEN {"overfull"}
    ELSE IF OddBuf(g, e) /\ ReadsItem(e) /\ e.r \in BufTags THEN {}
    ELSE {"tag"}

VValue(q, e) ==
    IF e.o \in {"pop", "peek"} /\ e.r = "ok" /\ e.x # (IF q = <<>> THEN 0 ELSE q[1])
    THEN {"value"} ELSE {}
VIter(q, e) ==
    IF e.o # "iter" THEN {}
    ELSE (IF Len(e.i) > Len(q) \/ \E j \in 1..Len(e.i) : j <= Len(q) /\ e.i[j][1] # q[j]
          THEN {"iter-order"} ELSE {})
         \cup (IF e.r = "ok" /\ Len(e.i) < (IF e.lim < Len(q) THEN e.lim ELSE Len(q))
               THEN {"iter-missing"} ELSE {})

VEffect(g, q, e, d) ==
    IF e.o = "badflash" THEN {}
    ELSE IF e.r = "ok" THEN IF OkPost(g, q, e, d) THEN {} ELSE {"effect"}
    ELSE IF Interrupted(e) THEN IF IntPost(g, q, e, d) THEN {} ELSE {"interrupt"}
    \* a too small buffer may stop an iteration that has popped already
    ELSE IF e.o = "iter" /\ d = Without(q, Popped(e, {1})) THEN {}
    ELSE IF d # q THEN {"refuse"} ELSE {}

VCrash(g, q, e) ==
    IF Has(e, "b") /\ e.o # "eraseall"
       /\ \E j \in 1..Len(e.b) : \/ ~CrashPost(g, q, e, e.b[j])
                                 \/ \E k \in 1..Len(e.b[j]) : e.b[j][k] < 0
    THEN {"crash"} ELSE {}

VTooBig(g, e) ==
    IF e.o \notin {"push", "pusho"} \/ Interrupted(e) THEN {}
    ELSE IF (e.r = "toobig") # (e.n > MaxItem(g)) THEN {"toobig"} ELSE {}

\* a push is not refused when all is popped (always), nor, with pops in order, while two
\* pages hold nothing
VFull(g, q, e) ==
    IF e.o = "push" /\ e.r = "full"
       /\ (q = <<>> \/ (g.fifo /\ Len(q) <= g.np - 2))
    THEN {"reclaim"} ELSE {}

VFit(e) ==
    IF ~Has(e, "m") THEN {}
    ELSE IF e.m = -1 THEN (IF e.p1 = "ok" THEN {"fit"} ELSE {}) \cup (IF e.x # -1 THEN {"fit"} ELSE {})
    ELSE IF e.p0 = "ok" /\ e.p1 # "ok" /\ e.x = e.m THEN {} ELSE {"fit"}
VSpace(g, e) ==
    IF ~Has(e, "s") \/ Interrupted(e) THEN {}
    ELSE (IF e.s[1] < 0 \/ e.s[1] > g.np * g.cap THEN {"space"} ELSE {})
         \cup (IF e.o = "space" /\ e.r = "ok" /\ e.x # e.s[1] THEN {"space"} ELSE {})
         \cup (IF e.o = "push" /\ e.r = "ok" /\ e.s[1] < Foot(g, e.n) THEN {"space"} ELSE {})
         \cup (IF e.o \in {"pop", "peek", "iter", "space", "maxfit"} /\ e.s[2] < e.s[1]
               THEN {"space"} ELSE {})

VBuf(g, q, e) ==
    IF ~Has(e, "u") \/ Interrupted(e) THEN {}
    ELSE IF e.o \in {"pop", "peek"} /\ q # <<>> /\ e.r = "ok" /\ e.u < g.vlen[q[1]]
    THEN {"buf"}
    \* the size that is asked for is more than was given, and not more than documented
    ELSE IF e.r = "bufsmall" /\ (e.bn <= e.u \/ e.bn > Longest(g)) THEN {"buf"} ELSE {}

VCache(e) ==
    (IF Has(e, "rs") /\ \E j \in 2..Len(e.rs) : e.rs[j] # e.rs[1] THEN {"cache-result"} ELSE {})
    \cup (IF Has(e, "cs") /\ \E j \in 2..Len(e.cs) : e.cs[j] # e.cs[1] THEN {"cache-content"} ELSE {})

Viol(g, q, e, d) ==
    VResult(e) \cup VObserve(e, d) \cup VTag(g, e) \cup VValue(q, e) \cup VIter(q, e)
    \cup VEffect(g, q, e, d) \cup VCrash(g, q, e) \cup VTooBig(g, e) \cup VFull(g, q, e)
    \cup VFit(e) \cup VSpace(g, e) \cup VBuf(g, q, e) \cup VCache(e)
=============================================================================
