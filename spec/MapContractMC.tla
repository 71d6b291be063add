--------------------------- MODULE MapContractMC ---------------------------
(* Closed model of MapContract: every history in which each step is one the  *)
(* contract permits.  Checked against the property texts stated over whole   *)
(* histories: `may` is computed from the acknowledgements alone (what a user *)
(* has seen), and every content the contract lets through has to be in it.   *)
EXTENDS MapContract

CONSTANTS NK, NV
VARIABLES c, may, last

Config == [hdr |-> 8, word |-> 4, cap |-> 56, klen |-> [k \in 1..NK |-> k],
           vlen |-> [v \in 1..NV |-> 20 * v]]
Contents == [1..NK -> 0..NV]
Events ==
    [o : {"store"}, k : 1..NK, v : 1..NV, n : {30}, r : {"ok", "full", "toobig", "storage", "cancel"},
     x : {-1}, f : {"none", "crash", "err", "cancel"}]
    \cup [o : {"fetch"}, k : 1..NK, v : {0}, n : {0}, r : {"ok"}, x : 0..NV, f : {"none"}]
    \cup [o : {"remove"}, k : 1..NK, v : {0}, n : {0}, r : {"ok", "storage"}, x : {-1},
          f : {"none", "crash"}]
    \cup [o : {"removeall", "eraseall"}, k : {0}, v : {0}, n : {0}, r : {"ok", "storage"}, x : {-1},
          f : {"none", "crash"}]
    \cup [o : {"renew"}, k : {0}, v : {0}, n : {0}, r : {"ok"}, x : {-1}, f : {"none"}]

\* What the property texts say, over acknowledgements only.
May(e) ==
    [k \in 1..NK |->
        CASE e.o = "store" /\ e.k = k ->
                IF e.r = "ok" THEN {e.v} ELSE IF e.f # "none" THEN may[k] \cup {e.v} ELSE may[k]
          [] (e.o = "remove" /\ e.k = k) \/ e.o = "removeall" ->
                IF e.r = "ok" THEN {0} ELSE may[k] \cup {0}
          [] e.o = "eraseall" -> IF e.r = "ok" THEN {0} ELSE 0..NV
          [] e.o = "fetch" /\ e.k = k /\ e.r = "ok" -> {e.x}
          [] OTHER -> may[k]]

Init == /\ c = [k \in 1..NK |-> 0] /\ may = [k \in 1..NK |-> {0}] /\ last = 0
\* an interrupted erase of everything has to be repeated
Next ==    \E e \in Events : \E d \in Contents :
              /\ last = 1 => e.o = "eraseall"
              /\ Viol(Config, c, e, d, {}) = {}
              /\ c' = d /\ may' = May(e)
              /\ last' = IF e.o = "eraseall" /\ e.r # "ok" THEN 1 ELSE 0
Spec == Init /\ [][Next]_<<c, may, last>>

\* M01-M04: what a key reads is explained by what was acknowledged
Explained == \A k \in 1..NK : c[k] \in may[k]
=============================================================================
