------------------------------ MODULE SumCheck ------------------------------
(* The sumcheck protocol for a sum of products of multilinear polynomials.    *)
(* The prover claims the sum over the hypercube; in each round it sends the   *)
(* evaluations at 0..deg of a univariate polynomial, the verifier answers     *)
(* with a challenge; after the last round the verifier decides and leaves a   *)
(* residual claim.  A prover may send anything at all (Cheating).             *)
(*                                                                            *)
(*   Complete    the honest prover of the true sum is accepted                *)
(*   Rejects     the honest prover of any other sum is rejected               *)
(*   Residual    whoever is accepted: the residual claim is the interpolation *)
(*               of the last message; for the honest prover it is f(point)    *)
(*   RoundSound  from a false running claim, a message that passes the check  *)
(*               agrees with the true one at no more than deg challenges      *)
(*   Deviates    the same for every message that is not the honest one        *)
EXTENDS Field

CONSTANTS NumVars, Shapes, Cheating, PolySample   \* only used to pick instances to explore

VARIABLES cols, prods, claim, msgs, chals, phase, honest

vars == <<cols, prods, claim, msgs, chals, phase, honest>>

Deg     == VpDeg(prods)
Nv      == Log2(Len(cols[1]))
Round   == Len(chals) + 1
Truth   == HonestMsg(cols, prods, Deg, chals)
Expect  == IF chals = <<>> THEN claim ELSE Interp(msgs[Len(chals)], chals[Len(chals)])

(* ---- the verifier's decision, on any message sequence whatsoever *)
WellFormed(ms, n, deg) == Len(ms) = n /\ \A i \in 1..Len(ms) : Len(ms[i]) = deg + 1 /\ deg >= 1
ExpectAt(ms, cl, c, i) == IF i = 1 THEN cl ELSE Interp(ms[i - 1], c[i - 1])
RoundsOK(ms, cl, c)    == \A i \in 1..Len(ms) : Fadd(ms[i][1], ms[i][2]) = ExpectAt(ms, cl, c, i)
Accepts(ms, cl, c, n, deg) == n >= 1 /\ WellFormed(ms, n, deg) /\ Len(c) = n /\ RoundsOK(ms, cl, c)
ResidualOf(ms, c)      == Interp(ms[Len(ms)], c[Len(c)])

ColSet  == [1..Pw2(NumVars) -> FE]
Start == msgs = <<>> /\ chals = <<>> /\ phase = "prover" /\ honest = TRUE
Init == /\ \E s \in Shapes : prods = s
        /\ \E c \in (IF PolySample = 0 THEN [1..2 -> ColSet]
                     ELSE {[j \in 1..2 |-> [k \in 1..Pw2(NumVars) |-> RandomElement(FE)]] : i \in 1..PolySample}) :
             cols = <<c[1], c[2]>>
        /\ claim \in FE
        /\ Start

SendMsg(m) ==
        /\ phase = "prover"
        /\ msgs' = Append(msgs, m)
        /\ honest' = (honest /\ m = Truth)
        /\ phase' = "verifier"
        /\ UNCHANGED <<cols, prods, claim, chals>>
Send == /\ phase = "prover"
        /\ \E m \in {Truth} \cup (IF Cheating THEN [1..(Deg + 1) -> FE] ELSE {}) : SendMsg(m)

ChallengeIs(r) == /\ phase = "verifier"
                  /\ chals' = Append(chals, r)
                  /\ phase' = IF Round = Nv THEN "decide" ELSE "prover"
                  /\ UNCHANGED <<cols, prods, claim, msgs, honest>>
Challenge == \E r \in FE : ChallengeIs(r)

Verdict == Accepts(msgs, claim, chals, Nv, Deg)
Decide == /\ phase = "decide"
          /\ phase' = IF Verdict THEN "accepted" ELSE "rejected"
          /\ UNCHANGED <<cols, prods, claim, msgs, chals, honest>>

Next == Send \/ Challenge \/ Decide
Spec == Init /\ [][Next]_vars

Complete == (phase = "rejected") => ~(honest /\ claim = VpSum(cols, prods))
Rejects  == (phase = "accepted" /\ honest) => claim = VpSum(cols, prods)
Residual == (phase = "accepted" /\ honest) => ResidualOf(msgs, chals) = VpAt(cols, prods, chals)
Agree(a, b) == Cardinality({r \in FE : Interp(a, r) = Interp(b, r)})
(* at the prover's turn the running claim is Expect; m is the message just sent *)
RoundSound ==
  (phase = "verifier") =>
     LET m == msgs[Len(msgs)]
         t == HonestMsg(cols, prods, Deg, chals)
         passes == Fadd(m[1], m[2]) = Expect
         false  == Expect # Fadd(t[1], t[2])
     IN /\ (false /\ passes) => (m # t /\ Agree(m, t) <= Deg)
        /\ (m # t) => Agree(m, t) <= Deg
=============================================================================
