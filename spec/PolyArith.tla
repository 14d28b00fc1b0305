------------------------------ MODULE PolyArith ------------------------------
(* Polynomial arithmetic as a state machine: a pool of multilinear columns and *)
(* a pool of sums of products of them ("virtual polynomials"), and every       *)
(* public operation on them with the result the mathematical definition gives, *)
(* including which calls must be refused.  Each behaviour is printed as one     *)
(* program and carried out by the real code over the same field.                *)
(* The definitions used here are checked against one another by the invariants. *)
EXTENDS Field, Json
CONSTANTS MaxNv, MaxOps, Kinds
K25 == (1..25) \cup {27, 28}
KBig == {1, 4, 26}
VARIABLES cols, vps, log, law
vars == <<cols, vps, log, law>>

Rnd(S)   == RandomElement(S)
Elt(z_)  == IF Rnd(1..3) = 1 THEN Rnd({0, 0, 1, 2, P - 1}) ELSE Rnd(FE)
Coef(z_) == IF Rnd(1..3) = 1 THEN Rnd({0, 1, P - 1}) ELSE Rnd(FE)
Coord(z_) == IF Rnd(1..2) = 1 THEN Rnd({0, 1}) ELSE Elt(0)
Point(k) == TLCEval([i \in 1..k |-> Coord(i)])
NewCol(k) == TLCEval(LET w == Rnd(1..5) IN
               IF w = 1 THEN [i \in 1..Pw2(k) |-> 0]
               ELSE IF w = 2 THEN LET c == Elt(0) IN [i \in 1..Pw2(k) |-> c]
               ELSE [i \in 1..Pw2(k) |-> Elt(i)])
Nv(c) == Log2(Len(c))
RECURSIVE RndSeq(_, _)
RndSeq(k, m) == IF k = 0 THEN <<>> ELSE <<Rnd(1..m)>> \o RndSeq(k - 1, m)
CeilLog2(n) == CHOOSE k \in 0..12 : Pw2(k) >= n /\ (k = 0 \/ Pw2(k - 1) < n)

(* a virtual polynomial: number of variables, products *)
Val(v, z) == VpAt(cols, v.prods, z)
Value(cs, v, z) == IF v.prods = <<>> THEN 0 ELSE VpAt([i \in 1..Len(cs) |-> IF Nv(cs[i]) = v.nv THEN cs[i] ELSE [k \in 1..Pw2(v.nv) |-> 0]], v.prods, z)
Row(cs, v, k) == IF v.prods = <<>> THEN 0 ELSE
                 Fsum([i \in 1..Len(v.prods) |-> Fmul(v.prods[i].c, Fprod([j \in 1..Len(v.prods[i].p) |-> cs[v.prods[i].p[j]][k]]))])

FixLast(c, r) == LET h == Len(c) \div 2 IN [b \in 1..h |-> Fadd(c[b], Fmul(r, Fsub(c[b + h], c[b])))]
RECURSIVE FixLastAll(_, _)
FixLastAll(c, pt) == IF pt = <<>> THEN c ELSE FixLastAll(TLCEval(FixLast(c, pt[Len(pt)])), SubSeq(pt, 1, Len(pt) - 1))
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
Merge(q)  == LET all == Concat(q)  n == Pw2(Nv(q[1]) + CeilLog2(Len(q))) IN
             [k \in 1..n |-> IF k <= Len(all) THEN all[k] ELSE 0]
IdPerm(n, chunks) == [k \in 1..(chunks * Pw2(n)) |-> (k - 1) % P]

(* ------------------------------------------------------------- operations *)
(* e: what the operation must produce; ok = FALSE: it must be refused        *)
Op0(k, e) == [op |-> k, ok |-> TRUE] @@ e
Refused(k, e) == [op |-> k, ok |-> FALSE] @@ e
Other(nv) == LET S == {i \in 1..Len(cols) : Nv(cols[i]) # nv} IN S
Same(nv)  == {i \in 1..Len(cols) : Nv(cols[i]) = nv}

AddCol(rec, c) == <<cols \o <<TLCEval(c)>>, vps, rec>>
PutVp(rec, v)  == <<cols, vps \o <<TLCEval(v)>>, rec>>
SetVp(rec, i, v) == <<cols, [vps EXCEPT ![i] = TLCEval(v)], rec>>
Keep(rec)      == <<cols, vps, rec>>

DoCol(z_)  == LET k == Rnd(0..MaxNv)  c == NewCol(k) IN AddCol(Op0("col", [c |-> c]), c)
DoDup(z_)  == LET i == Rnd(1..Len(cols)) IN AddCol(Op0("dup", [i |-> i]), cols[i])
DoNew(z_)  == LET k == Rnd(0..MaxNv) IN PutVp(Op0("new", [nv |-> k]), [nv |-> k, prods |-> <<>>])
DoFrom(z_) == LET i == Rnd(1..Len(cols))  c == Coef(0) IN
              PutVp(Op0("from", [i |-> i, k |-> c]), [nv |-> Nv(cols[i]), prods |-> <<[c |-> c, p |-> <<i>>]>>])
Pick(S, m) == LET q == [i \in 1..m |-> Rnd(S)] IN TLCEval(q)
DoList(z_) ==
  LET v == Rnd(1..Len(vps))  nv == vps[v].nv  c == Coef(0)  m == Rnd(1..4)
      np == Len(vps[v].prods)
      (* often the factors of a product that is already there, in another order or number *)
      old == IF np = 0 THEN {} ELSE LET o == vps[v].prods[Rnd(1..np)].p IN {o[k] : k \in 1..Len(o)}
      S == IF old # {} /\ Rnd(1..2) = 1 THEN TLCEval(old) ELSE Same(nv)
      q == IF S = {} THEN <<>> ELSE Pick(S, m)
  IN  IF Rnd(1..6) = 1 \/ S = {} THEN
        LET bad == IF Other(nv) = {} THEN <<>> ELSE LET at == Rnd(1..(Len(q) + 1)) IN SubSeq(q, 1, at - 1) \o <<Rnd(Other(nv))>> \o SubSeq(q, at, Len(q))
        IN Keep(Refused("list", [v |-> v, q |-> bad, k |-> c]))
      ELSE IF Len(vps[v].prods) >= 8 THEN Keep(Op0("skip", [v |-> v]))
      ELSE SetVp(Op0("list", [v |-> v, q |-> q, k |-> c]), v, [vps[v] EXCEPT !.prods = Append(@, [c |-> c, p |-> q])])
DoMul(z_) ==
  LET v == Rnd(1..Len(vps))  nv == vps[v].nv  c == Coef(0) IN
      IF (Rnd(1..6) = 1 /\ Other(nv) # {}) \/ Same(nv) = {} THEN Keep(Refused("mul", [v |-> v, i |-> Rnd(Other(nv)), k |-> c]))
      ELSE IF VpDeg(vps[v].prods) >= 6 THEN Keep(Op0("skip", [v |-> v]))
      ELSE LET i == Rnd(Same(nv)) IN
           SetVp(Op0("mul", [v |-> v, i |-> i, k |-> c]), v,
                 [vps[v] EXCEPT !.prods = [j \in 1..Len(@) |-> [c |-> Fmul(@[j].c, c), p |-> Append(@[j].p, i)]]])
DoAdd(z_) ==
  LET v == Rnd(1..Len(vps))  S == {w \in 1..Len(vps) : vps[w].nv = vps[v].nv /\ Len(vps[w].prods) + Len(vps[v].prods) <= 10} IN
      IF S = {} THEN Keep(Op0("skip", [v |-> v]))
      ELSE LET w == Rnd(S) IN PutVp(Op0("add", [v |-> v, w |-> w]), [nv |-> vps[v].nv, prods |-> vps[v].prods \o vps[w].prods])
DoHat(z_) ==
  LET v == Rnd(1..Len(vps))  nv == vps[v].nv IN
      IF Rnd(1..6) = 1 \/ nv = 0 THEN Keep(Refused("hat", [v |-> v, r |-> Point(nv + 1)]))
      ELSE IF Rnd(1..8) = 1 THEN Keep(Refused("hat", [v |-> v, r |-> Point(nv - 1)]))
      ELSE IF VpDeg(vps[v].prods) >= 6 THEN Keep(Op0("skip", [v |-> v]))
      ELSE LET r == Point(nv)  e == TLCEval(EqCol(r)) IN
           <<cols \o <<e>>, vps \o <<TLCEval([nv |-> nv, prods |-> [j \in 1..Len(vps[v].prods) |-> [c |-> vps[v].prods[j].c, p |-> Append(vps[v].prods[j].p, Len(cols) + 1)]]])>>,
             Op0("hat", [v |-> v, r |-> r])>>
DoMat(z_) == LET v == Rnd(1..Len(vps))  c == TLCEval([k \in 1..Pw2(vps[v].nv) |-> Row(cols, vps[v], k)]) IN
             AddCol(Op0("mat", [v |-> v, c |-> c]), c)
DoEvalAt(v) ==
  LET nv == vps[v].nv IN
      IF Rnd(1..6) = 1 THEN Keep(Refused("eval", [v |-> v, z |-> Point(IF nv > 0 /\ Rnd(1..2) = 1 THEN nv - 1 ELSE nv + 1)]))
      ELSE LET z == Point(nv) IN Keep(Op0("eval", [v |-> v, z |-> z, x |-> Value(cols, vps[v], z), deg |-> VpDeg(vps[v].prods), nv |-> nv]))
DoEval(z_) == DoEvalAt(Rnd(1..Len(vps)))
DoEvalC(z_) == LET i == Rnd(1..Len(cols))  z == Point(Nv(cols[i])) IN Keep(Op0("evalc", [i |-> i, z |-> z, x |-> MleAt(cols[i], z)]))
DoFix(z_) ==
  LET i == Rnd(1..Len(cols))  k == Rnd(0..Nv(cols[i]))  z == Point(k)  c == TLCEval(FixAll(cols[i], z)) IN
      AddCol(Op0("fix", [i |-> i, z |-> z, c |-> c]), c)
DoFixLast(z_) ==
  LET i == Rnd(1..Len(cols))  k == Rnd(0..Nv(cols[i]))  z == Point(k)  c == TLCEval(FixLastAll(cols[i], z)) IN
      AddCol(Op0("fixlast", [i |-> i, z |-> z, c |-> c]), c)
(* more variables: the new ones in front of the old ones (every row is repeated) or behind them (the column is) *)
DoExt(z_) ==
  LET i == Rnd(1..Len(cols))  nv == Nv(cols[i])  w == Rnd({"front", "back"})  n == nv + Rnd(0..2) IN
      IF n > MaxNv + 1 THEN Keep(Op0("skip", [v |-> 0]))
      ELSE LET m == Pw2(n - nv)
               c == TLCEval([k \in 1..Pw2(n) |-> IF w = "front" THEN cols[i][((k - 1) \div m) + 1] ELSE cols[i][((k - 1) % Pw2(nv)) + 1]])
           IN  AddCol(Op0("ext", [i |-> i, w |-> w, n |-> n, c |-> c]), c)
DoMerge(z_) ==
  LET i == Rnd(1..Len(cols))  nv == Nv(cols[i])  m == Rnd(1..5)  q == <<i>> \o Pick(Same(nv), m - 1) IN
      IF Rnd(1..5) = 1 /\ Other(nv) # {} THEN Keep(Refused("merge", [q |-> Append(q, Rnd(Other(nv)))]))
      ELSE IF nv + CeilLog2(m) > MaxNv + 1 THEN Keep(Op0("skip", [v |-> 0]))
      ELSE LET c == TLCEval(Merge([j \in 1..m |-> cols[q[j]]])) IN AddCol(Op0("merge", [q |-> q, c |-> c]), c)
DoEq(z_) ==
  IF Rnd(1..8) = 1 THEN Keep(Refused("eq", [r |-> <<>>]))
  ELSE LET r == Point(Rnd(1..MaxNv))  c == TLCEval(EqCol(r)) IN AddCol(Op0("eq", [r |-> r, c |-> c]), c)
DoEqE(z_) ==
  LET k == Rnd(0..MaxNv)  x == Point(k) IN
      IF Rnd(1..5) = 1 THEN Keep(Refused("eqe", [a |-> x, b |-> Point(k + 1)]))
      ELSE LET y == Point(k) IN Keep(Op0("eqe", [a |-> x, b |-> y, x |-> EqAt(x, y)]))
DoIdx(z_) ==
  LET nv == IF Rnd(1..2) = 1 THEN Rnd(1..8) ELSE Rnd(9..24)  i == Rnd(0..(Pw2(nv) - 1)) IN
      Keep(Op0("idx", [i |-> i, nv |-> nv, bits |-> BitsOf(i, nv),
                       (* the two indices whose top nv-1 bits are i's low nv-1 bits, and i's top bit *)
                       x0 |-> (2 * i) % Pw2(nv), x1 |-> ((2 * i) % Pw2(nv)) + 1, top |-> i \div Pw2(nv - 1),
                       b |-> Rnd(1..9), z |-> Point(Rnd(0..3))]))
DoBnv(z_) == LET nv == Rnd(0..9)  k == Rnd(1..40) IN Keep(Op0("bnv", [nv |-> nv, k |-> k, x |-> nv + CeilLog2(k)]))
DoIdp(z_) == LET nv == Rnd(0..3)  k == Rnd(1..3) IN Keep(Op0("idp", [nv |-> nv, k |-> k, c |-> IdPerm(nv, k)]))
DoRand(z_) == Keep(Op0("rand", [what |-> Rnd({"mles", "zeros", "vp", "vpzero", "perm", "perms"}), nv |-> Rnd(0..MaxNv), lo |-> Rnd(1..2), hi |-> Rnd(3..5), k |-> Rnd(1..3)]))

(* large instances: too big to tabulate here, the code's results must satisfy the Laws below at a random point *)
DoBig(z_) == LET nv == Rnd(8..12) IN Keep(Op0("big", [nv |-> nv, cut |-> Rnd(0..nv), m |-> Rnd(1..3)]))

(* a virtual polynomial that was just changed or made is often evaluated at once *)
Touched == IF log = <<>> THEN 0
           ELSE LET l == log[Len(log)] IN
                IF l.op \in {"list", "mul"} /\ l.ok THEN l.v ELSE IF l.op \in {"add", "hat"} /\ l.ok THEN Len(vps) ELSE 0
Step(k) ==
  IF cols = <<>> THEN DoCol(0)
  ELSE IF Touched # 0 /\ Rnd(1..2) = 1 THEN DoEvalAt(Touched)
  ELSE IF Len(cols) > 14 \/ Len(vps) > 10 THEN
       (CASE k <= 6 -> DoEval(0) [] k = 7 -> DoEvalC(0) [] k = 8 -> DoEqE(0) [] k = 9 -> DoIdx(0) [] k = 26 -> DoBig(0) [] k = 10 -> DoBnv(0) [] OTHER -> DoIdp(0))
  ELSE IF vps = <<>> THEN (IF k <= 8 THEN DoCol(0) ELSE IF k <= 14 THEN DoFrom(0) ELSE DoNew(0))
  ELSE CASE k = 1 -> DoCol(0) [] k = 2 -> DoDup(0) [] k = 3 -> DoNew(0) [] k = 4 -> DoFrom(0) [] k \in {5, 6, 7} -> DoList(0)
         [] k \in {8, 9} -> DoMul(0) [] k = 10 -> DoAdd(0) [] k = 11 -> DoHat(0) [] k = 12 -> DoMat(0) [] k \in {13, 14, 15} -> DoEval(0)
         [] k = 16 -> DoEvalC(0) [] k = 17 -> DoFix(0) [] k = 18 -> DoFixLast(0) [] k = 19 -> DoMerge(0) [] k = 20 -> DoEq(0)
         [] k = 21 -> DoEqE(0) [] k = 22 -> DoIdx(0) [] k = 23 -> DoBnv(0) [] k = 24 -> DoIdp(0) [] k = 25 -> DoRand(0) [] k \in {27, 28} -> DoExt(0) [] OTHER -> DoBig(0)

Init == cols = <<>> /\ vps = <<>> /\ log = <<>> /\ law = <<>>
Next == /\ Len(log) < MaxOps
        /\ \E k \in {IF Len(log) >= 0 THEN Rnd(Kinds) ELSE 0} : \E s \in {TLCEval(Step(k))} :
             /\ cols' = s[1] /\ vps' = s[2] /\ log' = Append(log, s[3])
             /\ law' = IF Len(log) = 0 THEN <<>> ELSE [nc |-> Len(cols), nw |-> Len(vps), z |-> Point(MaxNv + 1), old |-> vps]
             /\ (Len(log) + 1 = MaxOps => PrintT("CASE " \o ToJson([ops |-> log'])))
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------- the laws they satisfy *)
Last == log[Len(log)]
Z(nv) == SubSeq(law.z, 1, nv)
V(i) == Value(cols, vps[i], Z(vps[i].nv))
O(i) == Value(cols, law.old[i], Z(law.old[i].nv))
C(i) == MleAt(cols[i], Z(Nv(cols[i])))
Laws == (log # <<>> /\ law # <<>>) =>
   /\ (Last.op = "list" /\ Last.ok) => V(Last.v) = Fadd(O(Last.v), Fmul(Last.k, Fprod([j \in 1..Len(Last.q) |-> C(Last.q[j])])))
   /\ (Last.op = "mul" /\ Last.ok)  => V(Last.v) = Fmul(Fmul(O(Last.v), Last.k), C(Last.i))
   /\ (Last.op = "add")             => V(Len(vps)) = Fadd(O(Last.v), O(Last.w))
   /\ (Last.op = "hat" /\ Last.ok)  => V(Len(vps)) = Fmul(O(Last.v), EqAt(Last.r, Z(vps[Last.v].nv)))
   /\ (Last.op = "mat")             => \A k \in 1..Len(Last.c) : Last.c[k] = Value(cols, vps[Last.v], BitsOf(k - 1, vps[Last.v].nv))
   /\ (Last.op = "fix")     => C(Len(cols)) = MleAt(cols[Last.i], Last.z \o Z(Nv(cols[Last.i]) - Len(Last.z)))
   /\ (Last.op = "fixlast") => C(Len(cols)) = MleAt(cols[Last.i], Z(Nv(cols[Last.i]) - Len(Last.z)) \o Last.z)
   /\ (Last.op = "ext")     => C(Len(cols)) = (LET z == Z(Last.n)  nv == Nv(cols[Last.i]) IN
                                MleAt(cols[Last.i], IF Last.w = "front" THEN SubSeq(z, Last.n - nv + 1, Last.n) ELSE SubSeq(z, 1, nv)))
   /\ (Last.op = "eq" /\ Last.ok)   => C(Len(cols)) = EqAt(Last.r, Z(Len(Last.r)))
   /\ (Last.op = "idx") => \E x \in {Last.x0, Last.x1} : x \div 2 = Last.i % Pw2(Last.nv - 1)
=============================================================================
