-------------------------- MODULE QueueContractMC --------------------------
(* Closed model of QueueContract: every history in which each step is one    *)
(* the contract permits, against the property texts stated over whole        *)
(* histories: exactly once, in order, dropped only with permission.          *)
(* Every pushed item is a fresh number, so the contents must stay strictly   *)
(* increasing; an item that has left never returns; an acknowledged item is  *)
(* there until it was popped, dropped with permission or erased.             *)
EXTENDS QueueContract

CONSTANTS MaxPush
VARIABLES q,      \* contents
          sure,   \* acknowledged pushes that nobody has tried to pop, drop or erase since
          gone,   \* items that are certainly gone
          next, last
vars == <<q, sure, gone, next, last>>

\* an item takes a third of a page, so a page erase may drop up to three
Config == [hdr |-> 8, word |-> 4, cap |-> 60, np |-> 2, vlen |-> [v \in 1..MaxPush |-> 12], fifo |-> TRUE]

Range(s) == {s[j] : j \in 1..Len(s)}
\* a permitted outcome is always a suffix of what was there, or has it at its end
Cand(e) == {Drop(q, m) : m \in 0..Len(q)} \cup (IF e.v = 0 THEN {} ELSE {Append(Drop(q, m), e.v) : m \in 0..Len(q)})
           \cup {Without(q, P) : P \in SUBSET (1..Len(q))}

Faults == {"none", "crash", "err"}
Events ==
    [o : {"push"}, v : {next}, n : {12}, r : {"ok", "full", "toobig", "storage"}, x : {0}, f : Faults, nd : {FALSE}]
    \cup [o : {"pusho"}, v : {next}, n : {12}, r : {"ok", "full", "storage"}, x : {0}, f : Faults, nd : BOOLEAN]
    \cup [o : {"pop", "peek"}, v : {0}, n : {0}, r : {"ok", "storage"}, x : Range(q) \cup {0}, f : Faults]
    \cup [o : {"iter"}, v : {0}, n : {0}, r : {"ok", "storage"}, x : {0}, f : Faults, lim : {9},
          pl : {<<>>}, i : {[j \in 1..Len(q) |-> <<q[j], s[j]>>] : s \in [1..Len(q) -> {0, 1, 2}]}]
    \cup [o : {"eraseall"}, v : {0}, n : {0}, r : {"ok", "storage"}, x : {0}, f : Faults]
    \cup [o : {"renew"}, v : {0}, n : {0}, r : {"ok"}, x : {0}, f : {"none"}]

Touched(e) ==
    CASE e.o = "pop" -> IF (e.r # "ok" /\ e.f = "none") \/ q = <<>> THEN {} ELSE {q[1]}
      [] e.o = "iter" -> {q[j] : j \in Popped(e, {1, 2})}
      [] e.o = "pusho" -> IF e.nd THEN {q[j] : j \in 1..(IF Len(q) < 3 THEN Len(q) ELSE 3)} ELSE {}
      [] e.o = "eraseall" -> Range(q)
      [] OTHER -> {}

Init == q = <<>> /\ sure = {} /\ gone = {} /\ next = 1 /\ last = 0
Next == \E e \in Events : \E d \in Cand(e) \cup {<<>>} :
            /\ next <= MaxPush
            /\ last = 1 => e.o = "eraseall"
            /\ Viol(Config, q, e, d) = {}
            /\ q' = d
            /\ sure' = (sure \ Touched(e)) \cup (IF e.o \in {"push", "pusho"} /\ e.r = "ok" THEN {e.v} ELSE {})
            /\ gone' = gone \cup (Range(q) \ Range(d))
            /\ next' = IF e.o \in {"push", "pusho"} THEN next + 1 ELSE next
            /\ last' = IF e.o = "eraseall" /\ e.r # "ok" THEN 1 ELSE 0
Spec == Init /\ [][Next]_vars

\* each item at most once, in push order
InOrder == last = 1 \/ \A a, b \in 1..Len(q) : a < b => q[a] < q[b]
\* what was popped, dropped or erased never comes back
NeverBack == Range(q) \cap gone = {} \/ last = 1
\* acknowledged and untouched items are there
NoLoss == last = 1 \/ sure \subseteq Range(q)
=============================================================================
