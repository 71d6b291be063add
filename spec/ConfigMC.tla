------------------------------ MODULE ConfigMC ------------------------------
(* Closed model of G01: for all small geometries and ranges the rules of     *)
(* Config agree with plain arithmetic on addresses, and an accepted          *)
(* configuration can hold an item per page (also while one page is kept      *)
(* free), a rejected geometry cannot hold any item with data.                *)
EXTENDS Config
CONSTANTS Words, MaxPage, MaxAddr
VARIABLES g, s, e
vars == <<g, s, e>>
Init == /\ g \in {[w |-> w, r |-> r, p |-> k * Max2(w, r)] : w \in Words, r \in Words, k \in 1..MaxPage}
        /\ s = 0 /\ e = 0
\* walk through the ranges address by address
Next == /\ g' = g
        /\ \/ e < MaxAddr /\ e' = e + 1 /\ s' = s
           \/ s < MaxAddr /\ s' = s + 1 /\ e' = e
Spec == Init /\ [][Next]_vars
P(x) == [q |-> x \div g.p, r |-> x % g.p]
F(who) == Faults(g, who, P(s), P(e))
Arithmetic == \A who \in {"map", "queue"} :
    /\ ("start" \in F(who)) = (s % g.p # 0)
    /\ ("end" \in F(who)) = (e % g.p # 0)
    /\ ("small" \in F(who)) = (e - s < MinPages(who) * g.p)
    /\ ("pages" \in F(who)) = (g.p < 3 * Word(g) + Up(8, Word(g)))
Usable == \A who \in {"map", "queue"} :
    F(who) = {} => /\ e > s
                   /\ (e - s) \div g.p >= MinPages(who)
                   /\ \E n \in 1..g.p : Fits(g, n)
Useless == "pages" \in F("queue") => \A n \in 1..g.p : ~Fits(g, n)
=============================================================================
