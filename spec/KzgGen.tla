------------------------------- MODULE KzgGen --------------------------------
(* Random commit/open/verify histories with substitutions, to be carried out  *)
(* on the real KZG.  Residues stay small, so that they denote integers around  *)
(* zero and the verdict is the same over the production field.                *)
EXTENDS Kzg, Json
CONSTANTS MaxN, What     \* What: "single" or "batch"
VARIABLES n
Init == n = 0

Rnd(S)   == RandomElement(S)
Neg(x)   == (0 - x) % P
Small(z_) == Rnd({0, 0, 1, 1, 2, 3, 5, P - 1, P - 2})
Coord(z_) == Rnd({0, 0, 1, 1, 2, 3, P - 1})
Poly(k)  == TLCEval(LET w == Rnd(1..8) IN
            IF w = 1 THEN [i \in 1..Pw2(k) |-> 0]
            ELSE IF w = 2 THEN LET c == Rnd({1, 4}) IN [i \in 1..Pw2(k) |-> c]
            ELSE IF w = 3 /\ k > 0 THEN LET b == Rnd(1..k) IN [i \in 1..Pw2(k) |-> BitsOf(i - 1, k)[b]]
            ELSE [i \in 1..Pw2(k) |-> Small(i)])
Point(k) == TLCEval([i \in 1..k |-> Coord(i)])
FrontDouble(f) == [i \in 1..(2 * Len(f)) |-> f[((i - 1) \div 2) + 1]]

(* a verification attempt: C, z, v, q with q given as the quotients of Open(f,z) or other polynomials *)
H(i) == [h |-> i, p |-> <<>>]
X(p) == [h |-> 0, p |-> p]
Att0(f, z, C, zz, v, q0, tag, vm) ==
   LET q == TLCEval(q0)  hq == TLCEval(Open(f, z)) IN
   [op |-> "verify", f |-> f, z |-> z, C |-> C, zz |-> zz, v |-> v, dv |-> Fsub(v, MleAt(f, z)), q |-> q, tag |-> tag,
    expect |-> IF Len(zz) <= vm /\ Verify(C, zz, v, [i \in 1..Len(q) |-> IF q[i].h > 0 THEN hq[q[i].h] ELSE q[i].p]) THEN "accept" ELSE "reject"]

Attempt(k, room, vm) ==
  LET f  == TLCEval(Poly(k))
      z  == TLCEval(Point(k))
      v  == TLCEval(MleAt(f, z))
      q  == TLCEval([i \in 1..k |-> H(i)])
      d  == Rnd({1, 2, P - 1})
      i  == IF k = 0 THEN 0 ELSE Rnd(1..k)
      j  == IF k = 0 THEN 0 ELSE Rnd(1..k)
      g  == TLCEval(Poly(k))
      w  == Rnd(1..17)
      Att(a, b, cc, dd, e, ff, t) == Att0(a, b, cc, dd, e, ff, t, vm)
  IN CASE w = 1 -> Att(f, z, f, z, v, q, "honest")
       [] w = 2 -> Att(f, z, f, z, Fadd(v, d), q, "value")
       [] w = 3 /\ k > 0 -> Att(f, z, f, [z EXCEPT ![i] = Fadd(@, d)], v, q, "point")
       [] w = 4 /\ k > 0 -> LET zz == TLCEval([z EXCEPT ![i] = Fadd(@, d)]) IN Att(f, z, f, zz, MleAt(f, zz), q, "point with its value")
       [] w = 5 -> Att(f, z, g, z, v, q, "other commitment")
       [] w = 6 -> Att(f, z, g, z, MleAt(g, z), q, "other commitment with its value")
       [] w = 7 -> Att(f, z, [a \in 1..Len(f) |-> Fadd(f[a], d)], z, Fadd(v, d), q, "shifted by a constant")
       [] w = 8 /\ k > 0 -> Att(f, z, f, z, v, [q EXCEPT ![i] = X(Poly(k - i))], "quotient replaced")
       [] w = 9 /\ k > 1 -> Att(f, z, f, z, v, [q EXCEPT ![i] = H(j), ![j] = H(i)], "quotients exchanged")
       [] w = 10 /\ k > 0 -> Att(f, z, f, z, v, SubSeq(q, 1, k - 1), "quotient missing")
       [] w = 11 -> Att(f, z, f, z, v, Append(q, X(<<0>>)), "quotient added")
       [] w = 12 /\ k > 0 -> Att(f, z, f, Tail(z), v, Tail(q), "shorter point")
       [] w = 13 /\ room -> LET y == Rnd({0, 1, 3}) IN Att(f, z, f, <<y>> \o z, v, <<X(<<0>>)>> \o q, "longer point")
       [] w = 14 /\ room -> Att(f, z, FrontDouble(f), z, v, q, "front extension")
       [] w = 15 /\ k > 0 -> LET zz == TLCEval(Point(k)) IN Att(f, z, f, zz, MleAt(f, zz), q, "other point with its value")
       [] w = 16 /\ k > 0 -> Att(f, z, f, z, Fadd(v, d), [q EXCEPT ![i] = X(TLCEval([a \in 1..Pw2(k - i) |-> Rnd(FE)]))], "false value, forged quotient")
       [] OTHER -> Att(f, z, f, z, v, q, "honest")

MaxOf(a, b) == IF a > b THEN a ELSE b
(* only these keep their verdict when the coordinates are replaced by random field elements *)
Generic == {"honest", "value", "point", "quotient replaced", "quotient missing", "quotient added"}

Single(z_) ==
  LET k == Rnd(0..MaxN)   w == Rnd(1..12)
      srs == IF k = 0 THEN Rnd(1..4) ELSE Rnd(k..(MaxN + 1))
      pm == Rnd(MaxOf(k, 1)..srs)  vm == Rnd(MaxOf(k, 1)..srs)
      base == [srs |-> srs, pm |-> pm, vm |-> vm, n |-> k]
      bad  == Rnd(1..6)
  IN IF w = 1 THEN   \* inputs that do not fit
       CASE bad = 1 -> base @@ [op |-> "commit", col |-> Poly(pm + 1), expect |-> "err", tag |-> "commit too large", rnd |-> FALSE]
         [] bad = 2 -> base @@ [op |-> "open", col |-> Poly(pm + 1), zz |-> Point(pm + 1), expect |-> "err", tag |-> "open too large", rnd |-> FALSE]
         [] bad = 3 -> base @@ [op |-> "open", col |-> Poly(k), zz |-> Point(k + 1), expect |-> "err", tag |-> "open at a longer point", rnd |-> FALSE]
         [] bad = 4 /\ k > 0 -> base @@ [op |-> "open", col |-> Poly(k), zz |-> Point(k - 1), expect |-> "err", tag |-> "open at a shorter point", rnd |-> FALSE]
         [] bad = 5 -> base @@ [op |-> "trim", m |-> srs + 1, expect |-> "err", tag |-> "trim beyond the parameters", rnd |-> FALSE]
         [] OTHER -> base @@ [op |-> "srs0", expect |-> "err", tag |-> "parameters for constants only", rnd |-> FALSE]
     ELSE IF w = 2 THEN LET f == TLCEval(Poly(k)) g == TLCEval(IF srs > k /\ Rnd(1..3) = 1 THEN FrontDouble(f) ELSE IF Rnd(1..3) = 1 THEN f ELSE Poly(k)) IN
          base @@ [op |-> "same", f |-> f, g |-> g, expect |-> IF SameComm(f, g) THEN "same" ELSE "different", tag |-> "commitments compared", rnd |-> FALSE]
     ELSE LET a == Attempt(k, srs > k, vm) IN base @@ a @@ [rnd |-> (a.tag \in Generic /\ (a.tag = "quotient replaced" => a.expect = "reject") /\ Rnd(1..2) = 1)]

(* ------------------------------------------------------------ batches *)
(* what must happen to a batch verified with changes: rejected when some entry is false or the    *)
(* proof itself was altered; a changed but true statement may be treated either way               *)
Batch(z_) ==
  LET k  == IF Rnd(1..12) = 1 THEN Rnd({15, 16, 17, 33}) ELSE Rnd({1, 2, 3, 4, 5, 6, 8, 9})
      nn == Rnd(1..MaxN)
      np == Rnd(1..k)
      ps == TLCEval([i \in 1..np |-> Poly(nn)])
      npt == Rnd(1..k)
      pts == TLCEval([i \in 1..npt |-> Point(nn)])
      ix == TLCEval([i \in 1..k |-> Rnd(1..np)])
      px == TLCEval([i \in 1..k |-> IF Rnd(1..3) = 1 THEN 1 ELSE Rnd(1..npt)])
      srs == nn + Rnd(0..1)
      ev == TLCEval([i \in 1..k |-> MleAt(ps[ix[i]], pts[px[i]])])
      i  == Rnd(1..k)   j == Rnd(1..k)   d == Rnd({1, 2, P - 1})   c == Rnd(1..nn)
      zero == \A a \in 1..np : \A b \in 1..Pw2(nn) : ps[a][b] = 0
      moved == TLCEval([pts[px[i]] EXCEPT ![c] = Fadd(@, d)])
      g  == TLCEval(Poly(nn))
      w  == Rnd(1..26)
      base == [op |-> "batch", srs |-> srs, n |-> nn, polys |-> [a \in 1..k |-> ps[ix[a]]], pts |-> [a \in 1..k |-> pts[px[a]]],
               ix |-> ix, px |-> px, evals |-> ev, i |-> i, j |-> j, c |-> c, d |-> d, g |-> g, r |-> Rnd(1..nn), kk |-> Rnd(0..2), zero |-> zero]
      A(tag, e) == base @@ [attack |-> tag, expect |-> e, rnd |-> (Rnd(1..2) = 1)]
      AI(tag, e) == base @@ [attack |-> tag, expect |-> e, rnd |-> FALSE]
  IN CASE w \in {1, 2, 3} -> A("none", "accept")
       [] w = 4 -> A("eval", "reject")
       [] w = 5 -> A("eval_claimed", "reject")
       [] w = 6 -> IF i = j THEN A("eval", "reject") ELSE A("evals_cancel", "reject")
       [] w = 7 -> IF i = j THEN A("eval_claimed", "reject") ELSE A("evals_cancel_claimed", "reject")
       [] w = 8 -> AI("point", IF MleAt(ps[ix[i]], moved) = ev[i] THEN "any" ELSE "reject")
       [] w = 9 -> AI("comm", IF MleAt(g, pts[px[i]]) = ev[i] THEN "any" ELSE "reject")
       [] w = 10 -> AI("swap_comm", IF MleAt(ps[ix[j]], pts[px[i]]) = ev[i] /\ MleAt(ps[ix[i]], pts[px[j]]) = ev[j] THEN "any" ELSE "reject")
       [] w = 11 -> AI("swap_point", IF MleAt(ps[ix[j]], pts[px[i]]) = ev[j] /\ MleAt(ps[ix[i]], pts[px[j]]) = ev[i] THEN "any" ELSE "reject")
       [] w = 12 -> AI("swap_eval", IF ev[i] = ev[j] THEN "any" ELSE "reject")
       [] w = 13 -> A("drop_eval", "reject")
       [] w = 14 -> A("add_eval", "reject")
       [] w = 15 -> A("drop_comm", "reject")
       [] w = 16 -> A("drop_point", "reject")
       [] w = 17 -> A("sc", "reject")
       [] w = 18 -> A("sc_point", "reject")
       [] w = 19 -> A("sc_point_len", "reject")
       [] w = 20 -> A("quot", "reject")
       [] w = 21 -> A("quot_drop", "reject")
       [] w = 22 -> A("quot_add", "reject")
       [] w = 23 -> A("transcript", IF zero THEN "any" ELSE "reject")
       [] w = 24 -> IF k = 1 THEN A("eval", "reject") ELSE A("adaptive", "reject")
       [] w = 25 -> IF k = 1 THEN A("none", "accept") ELSE A("adaptive_blind", "reject")
       [] OTHER -> A(Rnd({"open_empty", "open_points", "open_evals", "verify_empty", "open_too_large", "open_mixed", "open_point_len", "verify_point_len", "sc_rounds", "sc_deg"}), "err")

Case(z_) == IF What = "single" THEN Single(z_) ELSE Batch(z_)
Next == \E k \in {IF n >= 0 THEN Rnd(1..2) ELSE 0} : \E c \in {TLCEval(Case(k))} : PrintT("CASE " \o ToJson(c)) /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
