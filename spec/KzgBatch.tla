------------------------------ MODULE KzgBatch -------------------------------
(* Opening k polynomials at k points with one proof: the statements            *)
(* f_i(z_i) = e_i are folded with the weights eq(t, i) into one sum over the    *)
(* hypercube, the sumcheck leaves a claim at a2, and the folded polynomial      *)
(*    g' = sum_i eq(a2, z_i) * eq(t, i) * f_i                                   *)
(* is opened there.                                                             *)
(*   Folds     the folded sum of the true values is the sumcheck's sum          *)
(*   Residual  the value left by the sumcheck is g'(a2)                          *)
(*   Merged    polynomials at the same point may be added up first              *)
(*   Sound     false values survive for at most Ell/P of the t, PROVIDED they   *)
(*             were fixed before t was drawn                                     *)
(*   Adaptive  (deviation TFirst) when the values may depend on t, a false       *)
(*             vector passes for certain                                        *)
EXTENDS Kzg
CONSTANTS N, K, Ell, Sample, TFirst
VARIABLES fs, zs, t, a2, d
vars == <<fs, zs, t, a2, d>>

Some(S, k) == IF k = 0 THEN S ELSE {RandomElement(S) : i \in 1..k}
FVec(n)    == [1..n -> FE]
W(tt)      == TLCEval([i \in 1..K |-> EqAt(BitsOf(i - 1, Ell), tt)])
Init == /\ fs \in Some([1..K -> FVec(Pw2(N))], Sample)
        /\ zs \in Some([1..K -> FVec(N)], Sample) \cup {[i \in 1..K |-> [j \in 1..N |-> 2]]}
        /\ t \in Some(FVec(Ell), Sample)
        /\ a2 \in Some(FVec(N), Sample)
        /\ d \in IF TFirst THEN {LET w == W(t) IN [i \in 1..K |-> IF i = 1 THEN w[2] ELSE IF i = 2 THEN Fsub(0, w[1]) ELSE 0]}
                 ELSE Some(FVec(K), Sample)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* the virtual polynomial  sum_i eq(t,i) * f_i(X) * eq(X, z_i) *)
Cols  == [i \in 1..(2 * K) |-> IF i <= K THEN fs[i] ELSE EqCol(zs[i - K])]
Prods == LET w == W(t) IN [i \in 1..K |-> [c |-> w[i], p |-> <<i, K + i>>]]
Folded(e, tt) == LET w == W(tt) IN Fsum([i \in 1..K |-> Fmul(w[i], e[i])])
True1  == TLCEval([i \in 1..K |-> MleAt(fs[i], zs[i])])
GPrime == LET w == W(t) IN [b \in 1..Pw2(N) |-> Fsum([i \in 1..K |-> Fmul(Fmul(EqAt(a2, zs[i]), w[i]), fs[i][b])])]

Folds    == Folded(True1, t) = VpSum(Cols, Prods)
Residual == VpAt(Cols, Prods, a2) = MleAt(GPrime, a2)
Merged   == LET w == W(t)
                ps == {zs[i] : i \in 1..K}
                pt == CHOOSE q \in [1..Cardinality(ps) -> ps] : \A x, y \in 1..Cardinality(ps) : x # y => q[x] # q[y]
                g(z)  == [b \in 1..Pw2(N) |-> Fsum([i \in 1..K |-> IF zs[i] = z THEN Fmul(w[i], fs[i][b]) ELSE 0])]
            IN  VpSum(Cols, Prods) = Fsum([j \in 1..Len(pt) |-> MleAt(g(pt[j]), pt[j])])
Bad      == {tt \in FVec(Ell) : Folded([i \in 1..K |-> Fadd(True1[i], d[i])], tt) = Folded(True1, tt)}
False1   == \E i \in 1..K : d[i] # 0
Sound    == (False1 /\ ~TFirst) => Cardinality(Bad) * P <= Ell * Cardinality(FVec(Ell))
(* what a verifier that draws t before the values are fixed would be entitled to hope for *)
Caught   == False1 => t \notin Bad
=============================================================================
