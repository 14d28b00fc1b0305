----------------------------- MODULE SumCheckGen -----------------------------
(* Random sumcheck and zerocheck runs to be carried out on the real code,      *)
(* with the verdict the specification predicts where it does not depend on     *)
(* the challenges.                                                             *)
EXTENDS Field, Json

CONSTANTS Kinds, MaxNv, MaxDeg, BigDeg

VARIABLES n
Init == n = 0

Rnd(S) == RandomElement(S)
Elt(z_)    == IF Rnd(1..3) = 1 THEN Rnd({0, 0, 1, 2, P - 1}) ELSE Rnd(FE)
SmallElt(z_) == Rnd({0, 0, 1, 1, 2, 3, P - 1})

RECURSIVE RndSeq(_, _)   \* a product: column numbers with repetition
RndSeq(k, m) == IF k = 0 THEN <<>> ELSE <<Rnd(1..m)>> \o RndSeq(k - 1, m)

Coef(z_) == IF Rnd(1..4) = 1 THEN Rnd({0, 1, P - 1}) ELSE Rnd(FE)
Prods(m) == LET np == Rnd(1..3) IN
            [i \in 1..np |-> [c |-> Coef(0), p |-> RndSeq(Rnd(1..MaxDeg), m)]]
(* one long product of one or two columns: exercises the large-degree interpolation *)
BigProds(m) == LET d == Rnd(BigDeg) IN
               IF Rnd(1..2) = 1 THEN <<[c |-> Coef(0), p |-> RndSeq(d, m)]>>
               ELSE <<[c |-> Coef(0), p |-> RndSeq(d, m)], [c |-> Coef(0), p |-> RndSeq(Rnd(1..3), m)]>>

(* changes to messages: round r, evaluation k (from 0), amount d *)
Tampers(nv, deg) ==
  LET r == Rnd(1..nv)   d == Rnd(1..(P - 1)) IN
  CASE Rnd(1..4) = 1 -> <<>>
    [] Rnd(1..3) = 1 -> <<[r |-> r, k |-> 0, d |-> d], [r |-> r, k |-> 1, d |-> P - d]>>
    [] Rnd(1..3) = 1 -> <<[r |-> nv, k |-> Rnd(0..deg), d |-> d]>>
    [] Rnd(1..3) = 1 /\ nv > 1 -> <<[r |-> 1, k |-> Rnd(0..deg), d |-> d], [r |-> nv, k |-> Rnd(0..deg), d |-> Rnd(1..(P - 1))]>>
    [] OTHER -> <<[r |-> r, k |-> Rnd(0..deg), d |-> d]>>

SumMals(k) == IF k = "inter"
              THEN {"early", "extra", "short", "long", "empty", "prover_first", "prover_nochal", "prover_extra"}
              ELSE {"drop_first", "drop_last", "add_round", "dup_round", "short", "long", "empty", "one", "no_rounds", "nv_more", "nv_less", "nv_zero", "deg_more", "deg_less", "deg_zero", "swap"}

SumOf(t, i) == Fsum([j \in 1..Len(t) |-> IF t[j].r = i /\ t[j].k \in {0, 1} THEN t[j].d ELSE 0])
(* verdict over a large field, where distinct polynomials disagree at the challenge *)
Predict(nv, deg, delta, t, mal) ==
  IF mal # "" \/ delta # 0 THEN "reject"
  ELSE IF t = <<>> THEN "accept"
  ELSE IF \E i \in 1..nv : SumOf(t, i) # 0 THEN "reject"
  ELSE IF \E j \in 1..Len(t) : t[j].r < nv THEN "reject"
  ELSE "residual"       \* accepted, but the residual claim is false

Col(nv, e(_)) == [k \in 1..Pw2(nv) |-> e(k)]

SumCase(kind) ==
  LET big  == BigDeg # {} /\ Rnd(1..4) = 1
      nv   == IF big THEN Rnd(1..2) ELSE Rnd(1..MaxNv)
      m    == Rnd(1..3)
      cs   == [i \in 1..m |-> Col(nv, LAMBDA k : Elt(k))]
      pr   == IF big THEN BigProds(m) ELSE Prods(m)
      deg  == VpDeg(pr)
      mode == Rnd(1..10)
      mal  == IF mode = 1 THEN LET ml == Rnd(SumMals(kind)) IN
                 IF (ml = "swap" /\ nv = 1) \/ (ml = "prover_nochal" /\ nv = 1) THEN "extra"
                 ELSE ml ELSE ""
      mal2 == IF kind # "inter" /\ mal = "extra" THEN "add_round" ELSE mal
      t    == IF mal2 = "" /\ mode > 4 /\ kind # "prove" THEN Tampers(nv, deg) ELSE <<>>
      dl   == IF mal2 = "" /\ Rnd(1..4) = 1 THEN Rnd(1..(P - 1)) ELSE 0
  IN [kind |-> kind, nv |-> nv, cols |-> cs, prods |-> pr, deg |-> deg, delta |-> dl, tampers |-> t,
      mal |-> IF kind = "prove" THEN "" ELSE mal2,
      expect |-> IF kind = "fr" THEN Predict(nv, deg, dl, t, mal2) ELSE "trace"]

(* ---- zerocheck: polynomials that vanish on every row, on all but one row, or only in sum *)
ZcPoly(z_) ==
  LET nv == Rnd(1..MaxNv)
      s  == TLCEval([k \in 1..Pw2(nv) |-> Rnd({0, 1})])
      cs1 == TLCEval([k \in 1..Pw2(nv) |-> (1 - s[k]) % P])
      x  == TLCEval([k \in 1..Pw2(nv) |-> SmallElt(k)])
      y  == TLCEval([k \in 1..Pw2(nv) |-> SmallElt(k)])
      xy == TLCEval([k \in 1..Pw2(nv) |-> (x[k] * y[k]) % P])
      z  == [k \in 1..Pw2(nv) |-> 0]
      c  == Rnd(1..(P - 1))
      w  == Rnd(1..6)
  IN CASE w = 1 -> [nv |-> nv, cols |-> <<s, cs1, x>>, prods |-> <<[c |-> c, p |-> <<1, 2>>], [c |-> Coef(0), p |-> <<3, 2, 1>>]>>]
       [] w = 2 -> [nv |-> nv, cols |-> <<x, y, xy>>, prods |-> <<[c |-> c, p |-> <<1, 2>>], [c |-> (0 - c) % P, p |-> <<3>>]>>]
       [] w = 3 -> [nv |-> nv, cols |-> <<x, x, y>>, prods |-> <<[c |-> c, p |-> <<1, 3, 3>>], [c |-> (0 - c) % P, p |-> <<3, 2, 3>>]>>]
       [] w = 4 -> [nv |-> nv, cols |-> <<s, x, s>>, prods |-> <<[c |-> c, p |-> <<1, 1, 2>>], [c |-> (0 - c) % P, p |-> <<2, 3>>]>>]
       [] w = 5 -> [nv |-> nv, cols |-> <<z, x>>, prods |-> <<[c |-> c, p |-> <<2, 1>>], [c |-> Coef(0), p |-> <<1>>]>>]
       [] OTHER -> [nv |-> nv, cols |-> <<s, x>>, prods |-> <<[c |-> c, p |-> <<1, 1>>], [c |-> (0 - c) % P, p |-> <<1>>]>>]

(* multiply every product by the same further factors: it still vanishes, with a higher degree *)
ZcRaise(q) ==
  LET extra == IF BigDeg # {} /\ Rnd(1..4) = 1 THEN Rnd(BigDeg) ELSE Rnd({0, 0, 1, 2, 3, 4, 6})
      u     == TLCEval([k \in 1..Pw2(q.nv) |-> Rnd({0, 1, 1, P - 1})])
      v     == TLCEval([k \in 1..Pw2(q.nv) |-> Rnd({1, P - 1})])
      m     == Len(q.cols)
      tail  == TLCEval([i \in 1..extra |-> m + Rnd(1..2)])
  IN IF extra = 0 THEN q ELSE [q EXCEPT !.cols = @ \o <<u, v>>, !.prods = [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = @ \o tail]]]

(* make it non-zero: at one row, or at two rows with opposite values *)
ZcBreak(q, m0) ==
  LET k == Rnd(1..Pw2(q.nv))   j == Rnd(1..Pw2(q.nv))   d == Rnd({1, 2, P - 1})
      one == TLCEval([i \in 1..Pw2(q.nv) |-> IF i = k THEN d ELSE 0])
      two == TLCEval([i \in 1..Pw2(q.nv) |-> IF i = k THEN d ELSE IF i = j THEN (0 - d) % P ELSE 0])
      m   == Len(q.cols)
  IN CASE Rnd(1..3) = 1 -> [q EXCEPT !.cols = Append(@, one), !.prods = Append(@, [c |-> 1, p |-> <<m + 1>>])]
       [] Rnd(1..2) = 1 -> [q EXCEPT !.cols = Append(@, two), !.prods = Append(@, [c |-> 1, p |-> <<m + 1>>])]
       [] OTHER -> [q EXCEPT !.cols = [@ EXCEPT ![Rnd(1..m0)][k] = (@ + d) % P]]

(* over the integers (residues read as numbers around zero): decides zero over any large field *)
Lift(x) == IF 2 * x > P THEN x - P ELSE x
RECURSIVE IProd(_, _, _)
IProd(cs, p, k) == IF p = <<>> THEN 1 ELSE Lift(cs[Head(p)][k]) * IProd(cs, Tail(p), k)
RECURSIVE ISum(_, _, _)
ISum(cs, pr, k) == IF pr = <<>> THEN 0 ELSE Lift(Head(pr).c) * IProd(cs, Head(pr).p, k) + ISum(cs, Tail(pr), k)
AllZero(q) == \A k \in 1..Pw2(q.nv) : ISum(q.cols, q.prods, k) = 0

ZcCase(kind) ==
  LET base == TLCEval(ZcPoly(0))
      q0  == TLCEval(ZcRaise(base))
      q   == IF kind = "zcfr" /\ Rnd(1..2) = 1 THEN ZcBreak(q0, Len(base.cols)) ELSE q0
      deg == VpDeg(q.prods)
      mode == Rnd(1..6)
      mal == IF kind = "zcfr" /\ mode = 1 THEN LET ml == Rnd(SumMals("fr")) IN IF ml = "swap" /\ q.nv = 1 THEN "drop_last" ELSE ml ELSE ""
      t   == IF kind = "zcfr" /\ mode = 2 THEN Tampers(q.nv, deg + 1) ELSE <<>>
  IN [kind |-> kind, nv |-> q.nv, cols |-> q.cols, prods |-> q.prods, deg |-> deg, delta |-> 0, tampers |-> t, mal |-> mal,
      expect |-> IF kind = "zc" THEN "trace"
                 ELSE IF ~AllZero(q) THEN "reject" ELSE Predict(q.nv, deg + 1, 0, t, mal)]

(* ---- two polynomials whose messages agree before round j: the second adds g (2 x_j - 1), where g does not depend on x_j *)
Flip(k, j) == LET b == Pw2(j - 1)  i == k - 1 IN IF (i \div b) % 2 = 0 THEN k + b ELSE k - b
PairCase(z_) ==
  LET nv == Rnd(1..MaxNv)
      m  == Rnd(1..3)
      j  == Rnd(1..nv)
      zc == Rnd(1..3) = 1
      q  == TLCEval(ZcPoly(0))
      cs == TLCEval([i \in 1..m |-> TLCEval([k \in 1..Pw2(nv) |-> Elt(k)])])
      g0 == TLCEval([k \in 1..Pw2(nv) |-> Rnd(FE)])
      g  == [k \in 1..Pw2(nv) |-> IF Flip(k, j) < k THEN g0[Flip(k, j)] ELSE g0[k]]
  IN IF zc THEN LET jj == Rnd(1..q.nv) IN
                [k |-> "pair", zc |-> TRUE, nv |-> q.nv, j |-> jj, cols |-> q.cols, prods |-> q.prods, g |-> [k \in 1..Pw2(q.nv) |-> 1 + (k % 3)]]
     ELSE [k |-> "pair", zc |-> FALSE, nv |-> nv, j |-> j, cols |-> cs, prods |-> Prods(m), g |-> g]

Case(kind) == IF kind = "pair" THEN PairCase(0) ELSE IF kind \in {"zc", "zcfr"} THEN ZcCase(kind) ELSE SumCase(kind)

(* the bound set mentions n so that TLC does not evaluate it once for all *)
Next == \E kind \in {IF n >= 0 THEN Rnd(Kinds) ELSE ""} : \E c \in {TLCEval(Case(kind))} :
          PrintT("CASE " \o ToJson(c)) /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
