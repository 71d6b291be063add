----------------------------- MODULE FormatTrace -----------------------------
(* Validation of recorded flash images: after every operation the image       *)
(* decodes to what the operation has to leave (F04, F05), and the real code   *)
(* reads from the image what it decodes to.                                   *)
EXTENDS Format, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ignore == ToSet(ndJsonDeserialize(IOEnv.SCOPE_FILE)[1].ignore)

VARIABLES tr, l, cur,  \* contents
          items,       \* items decoded from the image
          lost,        \* the flash was damaged arbitrarily: contents unknown
          known,       \* data of all items that ever were in flash or were given to the storage
          viol
vars == <<tr, l, cur, items, lost, known, viol>>

T == Traces[tr]
G(t) == [w |-> t.w, r |-> t.r, p |-> t.p, n |-> t.n]
Dat(its) == {its[i].d : i \in DOMAIN its}

(* what a fresh instance read: map [has, v] for every key, queue the items    *)
Seen(t, e) == IF t.kind = "m" THEN [k \in 0..(t.nk - 1) |-> IF e.reads[k + 1].has THEN <<e.reads[k + 1].v>> ELSE <<>>] ELSE e.reads
Legal(t, d) == IF t.kind = "m" THEN {ValueOf(x) : x \in {y \in known : y # <<>>}} ELSE known
KeyBytes(k) == IF k % 3 = 0 THEN <<k>> ELSE IF k % 3 = 1 THEN <<k, 161>> ELSE <<k, 161, 162>>
New(t, e) == IF e.op \in {"store"} THEN {KeyBytes(e.k) \o e.v} ELSE IF e.op = "push" THEN {e.v} ELSE {}

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ lost = FALSE
        /\ LET t == Traces[tr]
               its == Items(G(t), t.img)
               c == Contents(G(t), t.kind, t.nk, its)
           IN  /\ items = its
               /\ cur = c
               /\ known = Dat(its)
               /\ viol = IF t.err # "" THEN {"readerr"} ELSE IF Seen(t, t) # c THEN {"read"} ELSE {}

(* contents an operation may leave                                            *)
Tails(s) == {SubSeq(s, i, Len(s)) : i \in 1..(Len(s) + 1)}
After(t, e) ==
    IF e.op = "flip" THEN
        LET h == Hit(G(t), items, ToSet(e.at))
        IN  IF h # {} THEN LET i == CHOOSE i \in h : TRUE IN {Contents(G(t), t.kind, t.nk, SubSeq(items, 1, i - 1) \o SubSeq(items, i + 1, Len(items)))}
            ELSE {cur}
    ELSE IF e.res # "ok" THEN {cur}
    ELSE CASE e.op = "store" -> {[cur EXCEPT ![e.k] = <<e.v>>]}
           [] e.op = "remove" -> {[cur EXCEPT ![e.k] = <<>>]}
           [] e.op \in {"removeall", "eraseall"} -> {IF t.kind = "m" THEN [k \in DOMAIN cur |-> <<>>] ELSE <<>>}
           [] e.op = "push" -> IF e.over THEN {Append(s, e.v) : s \in Tails(cur)} ELSE {Append(cur, e.v)}
           [] e.op = "pop" -> {IF cur = <<>> THEN cur ELSE Tail(cur)}
           [] e.op = "itpop" -> {LET keep == SelectSeq([i \in DOMAIN cur |-> i], LAMBDA i : i \notin ToSet(e.at)) IN [i \in DOMAIN keep |-> cur[keep[i]]]}
           [] OTHER -> {cur}
(* the result of an operation that gives something back                       *)
Result(t, e) ==
    IF e.res # "ok" THEN TRUE
    ELSE CASE e.op = "fetch" -> e.out = cur[e.k]
           [] e.op \in {"pop", "peek"} -> e.out = (IF cur = <<>> THEN <<>> ELSE <<cur[1]>>)
           [] e.op = "itpop" -> e.out = cur
           [] OTHER -> TRUE
(* nothing else in flash may have changed by a flip; which flips are judged   *)
Judged(t, e) == \/ e.op # "flip"
                \/ Hit(G(t), items, ToSet(e.at)) # {}
                \/ Len(e.at) = 1 /\ e.bits = 1 /\ IsMarker(G(t), e.at[1])

Alien(t, e) ==
    LET vals == (IF e.op \in {"fetch", "pop", "peek", "itpop", "iter"} THEN ToSet(e.out) ELSE {})
        got == vals \cup (IF t.kind = "m" THEN UNION {ToSet(Seen(t, e)[k]) : k \in 0..(t.nk - 1)} ELSE ToSet(e.reads))
        kn == known \cup New(t, e)
    IN  \E d \in got : d \notin (IF t.kind = "m" THEN {ValueOf(x) : x \in {y \in kn : y # <<>>}} ELSE kn)

Step == /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               its == Items(G(T), e.img)
               c == Contents(G(T), T.kind, T.nk, its)
               gone == lost \/ ~Judged(T, e) \/ e.op = "wreck"
               base == (IF e.res = "panic" \/ e.err = "panic" THEN {"panic"} ELSE {}) \cup (IF e.bad THEN {"access"} ELSE {})
           IN  /\ items' = its
               /\ lost' = gone
               /\ known' = known \cup New(T, e) \cup (IF gone THEN {} ELSE Dat(its))
               /\ cur' = c
               /\ viol' = (base \cup
                    (IF gone THEN (IF Alien(T, e) THEN {"alien"} ELSE {})
                     ELSE (IF e.err # "" THEN {"readerr"} ELSE IF Seen(T, e) # c THEN {"read"} ELSE {}) \cup
                          (IF c \notin After(T, e) THEN {"content"} ELSE {}) \cup
                          (IF ~Result(T, e) THEN {"result"} ELSE {}) \cup
                          (IF e.res \in {"corrupt", "logic"} THEN {"corrupt"} ELSE {}) \cup
                          (IF T.strict /\ ~WellFormed(G(T), T.kind, e.img) THEN {"form"} ELSE {}))) \ Ignore
        /\ l' = l + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Step]_vars
Permitted == viol = {}
Total == FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
AllConsumed == PrintT(<<"TRACES", Len(Traces), "STATES", Total>>) /\ TLCGet("distinct") = Total
View == <<tr, l, viol>>
=============================================================================
