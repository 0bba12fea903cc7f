------------------------------ MODULE MC_Calib ------------------------------
(* Every combination of geometry, method and presence/value class of the     *)
(* calibration parameters: the specification is total, and refuses what it   *)
(* must.  Each combination is emitted for replay.                            *)
EXTENDS Calibration, TLC, Json
VARIABLES K, a, emitted
vars == <<K, a, emitted>>

Methods == {"default", "N_star", "Omega_K0", "reheating", "spam"}
\* class representatives; the driver substitutes numbers that suit its background
OkC  == {"none", "0", "0.01", "-0.01"}
hC   == {"none", "0", "-0.7", "0.7"}
NsC  == {"none", "0", "-5", "50", "500"}
bgC  == {"none", "50", "49"}
DNC  == {"none", "0", "3", "-2"}
wC   == {"none", "0", "0.3333333333333333", "0.2", "0.8", "-0.5"}
rhoC == {"none", "1e9"}
dmC  == {"none", "0", "1.5"}
Bare == [method |-> "default", Ok |-> "none", h |-> "none", Ns |-> "none", bg |-> "none", DN |-> "none", w |-> "none",
         rho |-> "none", dm1 |-> "none"]
Init == /\ K \in {-1, 0, 1} /\ emitted = FALSE
        /\ a \in [method : Methods, Ok : OkC, h : (IF K = 0 THEN {"none", "0.7"} ELSE hC),
                  Ns : (IF K = 0 THEN NsC ELSE {"none", "0", "50"}), bg : (IF K = 0 THEN bgC ELSE {"none"}),
                  DN : DNC, w : wC, rho : rhoC, dm1 : dmC]
        /\ (K = 0) => (a.Ok \in {"none", "0", "0.01"})
Emit == /\ ~emitted /\ emitted' = TRUE /\ UNCHANGED <<K, a>>
        /\ PrintT("CASE " \o ToJson([K |-> K, a |-> a, ok |-> Reasons(K, a) = {}]))
Next == Emit
Ok == Reasons(K, a) = {}

Documented == Reasons(K, a) \subseteq {"ValueError", "NotImplementedError"}
\* a served request says exactly what is needed, once
NeverOverdetermined ==
  (Ok /\ ~Given(a.bg)) =>
     LET pivot == IF K = 0 /\ Method(K, a) = "N_star" THEN {"Ns"} ELSE IF K # 0 /\ Method(K, a) = "Omega_K0" THEN {"Ok"} ELSE {}
         said  == Says(a) \ Marks(a)
     IN /\ (Given(a.Ns) <=> "Ns" \in pivot)
        /\ (K # 0 => (Given(a.Ok) <=> "Ok" \in pivot))
        /\ Cardinality(said) <= (IF pivot = {} THEN 2 ELSE 1)
        /\ (pivot = {} => Cardinality(said) # 1 \/ (K = 0 /\ said = {"dm1"}))
InstantIsConsistent == (Ok /\ Method(K, a) = "reheating" /\ Instant(a) = "yes") => Says(a) \subseteq Marks(a)
NoNegative == (Ok /\ ~Given(a.bg) /\ Given(a.DN)) => ~Lt(a.DN, 0)
SignMatches == (Ok /\ K # 0 /\ Given(a.Ok)) => EqR(Sgn(a.Ok), -K)
PositiveH == (Ok /\ K # 0) => Lt(0, a.h)
MatchingReference == (Ok /\ Given(a.bg)) => EqR(a.Ns, a.bg)
Servable == TRUE
=============================================================================
