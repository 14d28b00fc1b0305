------------------------------- MODULE Gadgets -------------------------------
(* The zksql gadgets ("poly IOPs"): for every gadget                        *)
(*   Rel(g, a)        the relation it exists to prove, stated on the data,   *)
(*   Subs(g, a, w)    what it reduces to once the prover has committed its   *)
(*                    own advice w (smaller gadgets, and leaf claims),       *)
(*   Honest(g, a)     the advice an honest prover commits,                   *)
(*   AdvDom(g, a)     the advice a cheating prover may commit instead.       *)
(* Leaf claims are the two the proof system really checks: a lookup          *)
(* ("multitool") identity between weighted bags, sampled at a challenge     *)
(* drawn after everything in it is committed, hence equality of the weights *)
(* of every value; and "this column is zero on every row".                  *)
EXTENDS Domains

CONSTANT CheatMax            \* bound on the values a cheating prover commits

Call(g, a) == [op |-> g, a |-> a]

(* ------------------------------------------------------------- leaves -- *)
MT(f, g, mf, mg) == [op |-> "MT", a |-> <<f, g, mf, mg>>]
ZERO(col)        == [op |-> "ZERO", a |-> <<col>>]
ERR              == [op |-> "ERR", a |-> <<>>]

SumOver(bs, ms, x) == SumFn([i \in 1..Len(bs) |-> Weight(bs[i], ms[i], x)])
BagsVals(bs)       == UNION {Ran(bs[i].v) : i \in 1..Len(bs)}
MTHolds(f, g, mf, mg) == \A x \in BagsVals(f) \cup BagsVals(g) : SumOver(f, mf, x) = SumOver(g, mg, x)

IsLeaf(c)    == c.op \in {"MT", "ZERO", "ERR"}
LeafHolds(c) == CASE c.op = "MT"   -> MTHolds(c.a[1], c.a[2], c.a[3], c.a[4])
                  [] c.op = "ZERO" -> \A i \in 1..Len(c.a[1]) : c.a[1][i] = 0
                  [] c.op = "ERR"  -> FALSE

(* ------------------------------------------- shared pieces of gadgets -- *)
WithSel(b, s) == Bag(b.v, s)
Times(s, t)   == [i \in 1..Len(s) |-> s[i] * t[i]]
Minus1(s)     == [i \in 1..Len(s) |-> 1 - s[i]]

(* multiplicities an honest prover uses for "included is a sub-support of super":
   everything on the first active occurrence *)
InclMult(inc, sup) ==
    [j \in 1..Len(sup.v) |->
        IF sup.s[j] = 0 \/ (\E k \in 1..(j - 1) : sup.s[k] # 0 /\ sup.v[k] = sup.v[j])
        THEN 0 ELSE Mult(inc, sup.v[j])]

ShiftLeft(v) == [i \in 1..Len(v) |-> v[(i % Len(v)) + 1]]
ShiftPerm(n) == [i \in 1..n |-> i % n]
DiffCol(v, q) == [i \in 1..Len(v) |-> IF i < Len(v) THEN q[i] - v[i] ELSE 1]
DiffSel(n)   == [i \in 1..n |-> IF i < n THEN 1 ELSE 0]

PadFront(q, n, x) == Fill(n - Len(q), x) \o q
SumSize(a, b)  == 2 * MaxInt(Size(a), Size(b))
(* a followed by b, padded with inactive zero rows *)
Concat(a, b)   == LET n == SumSize(a, b)
                      pad == n - Size(a) - Size(b)
                  IN  Bag(a.v \o b.v \o Fill(pad, 0), a.s \o b.s \o Fill(pad, 0))
(* the same, inactive values blanked, sorted by (value, selector) *)
SortedSum(a, b) == LET c   == Concat(a, b)
                       z   == [i \in 1..Size(c) |-> IF c.s[i] = 0 THEN 0 ELSE c.v[i]]
                       key == [i \in 1..Size(c) |-> 2 * z[i] + c.s[i]]
                       p   == SortIdx(key)
                   IN  Bag([i \in 1..Size(c) |-> z[p[i]]], [i \in 1..Size(c) |-> c.s[p[i]]])
(* sorted union of the supports, inactive zero rows in front *)
SortedSupp(a, b) == LET q == SetToSortedSeq(Vals(a) \cup Vals(b))
                        n == SumSize(a, b)
                    IN  Bag(PadFront(q, n, 0), PadFront(Ones(Len(q)), n, 0))
MultCol(b, c)  == [i \in 1..Size(c) |-> IF c.s[i] = 0 THEN 0 ELSE Mult(b, c.v[i])]

(* rows of A picked for every active row of B (one-to-many join) *)
MatchRow(ta, tb, ai, bi, i) ==
    CHOOSE j \in Active(ta) : ta.c[ai][j] = tb.c[bi][i]
HasMatch(ta, tb, ai, bi, i) ==
    \E j \in Active(ta) : ta.c[ai][j] = tb.c[bi][i]
JoinPossible(ta, tb, ai, bi) == \A i \in Active(tb) : HasMatch(ta, tb, ai, bi, i)
JoinCols(ta, tb, ai, bi) ==
    [c \in 1..Len(ta.c) |-> [i \in 1..Size(tb) |->
        IF tb.s[i] # 0 THEN ta.c[c][MatchRow(ta, tb, ai, bi, i)] ELSE 0]]

GroupBag(t, g) == Bag(t.c[g], t.s)
(* honest aggregate column of a support bag *)
AggSum(t, g, col, supp) ==
    [j \in 1..Size(supp) |-> IF supp.s[j] = 0 THEN 0
        ELSE SumFn([i \in 1..Size(t) |-> IF t.s[i] # 0 /\ t.c[g][i] = supp.v[j] THEN t.s[i] * t.c[col][i] ELSE 0])]

(* --------------------------------------------------- reduction of gadgets *)
(* w is the advice the gadget's own prover commits ("none" when it has none) *)
None == <<>>

Subs(g, a, w) ==
  CASE g = "multitool" ->
         (* a = << fbags, gbags, mfs, mgs >> *)
         IF a[1] = <<>> \/ a[2] = <<>> \/ Len(a[1]) # Len(a[3]) \/ Len(a[2]) # Len(a[4])
         THEN <<ERR>> ELSE <<MT(a[1], a[2], a[3], a[4])>>
    [] g = "bag_eq" -> <<MT(<<a[1]>>, <<a[2]>>, <<Ones(Size(a[1]))>>, <<Ones(Size(a[2]))>>)>>
    [] g = "bag_sum" -> <<MT(<<a[1], a[2]>>, <<a[3]>>, <<Ones(Size(a[1])), Ones(Size(a[2]))>>, <<Ones(Size(a[3]))>>)>>
    [] g = "inclusion_adv" -> <<MT(<<a[1]>>, <<a[2]>>, <<Ones(Size(a[1]))>>, <<a[3].v>>)>>
    [] g = "inclusion" -> <<Call("inclusion_adv", <<a[1], a[2], Vec(w)>>)>>
    [] g = "no_zeros" ->
         (* w[i]: what the committed "inverse" of row i times the value gives *)
         <<ZERO([i \in 1..Size(a[1]) |-> a[1].s[i] * (w[i] - 1)])>>
    [] g = "sel_valid" -> <<ZERO([i \in 1..Len(a[1].v) |-> a[1].v[i] * (1 - a[1].v[i])])>>
    [] g = "presc_perm" ->
         IF Size(a[1]) # Size(a[2]) \/ Size(a[1]) # Len(a[3].v) THEN <<ERR>>
         ELSE LET n == Size(a[1]) IN
              <<MT(<<Rowed([i \in 1..n |-> <<i - 1, a[1].v[i]>>], Ones(n))>>,
                   <<Rowed([i \in 1..n |-> <<a[3].v[i], a[2].v[i]>>], Ones(n))>>,
                   <<Ones(n)>>, <<Ones(n)>>)>>
    [] g = "strict_sort" ->
         (* w = the left shift q of the column *)
         LET n == Size(a[1]) IN
         << Call("presc_perm", <<a[1], Bag(w, Ones(n)), Vec(ShiftPerm(n))>>),
            Call("inclusion", <<Bag(DiffCol(a[1].v, w), DiffSel(n)), Bag(a[2].v, Ones(Size(a[2])))>>),
            Call("no_zeros", <<Bag(DiffCol(a[1].v, w), a[1].s)>>) >>
    [] g = "supp_adv" ->
         << Call("inclusion_adv", <<a[1], a[2], a[3]>>),
            Call("no_zeros", <<Bag(a[3].v, a[2].s)>>),
            Call("strict_sort", <<a[2], a[4]>>) >>
    [] g = "supp" -> << Call("supp_adv", <<a[1], a[2], Vec(w), a[3]>>) >>
    [] g = "bag_disjoint_adv" ->
         (* a = << A, B, C, mA, mB, range >> *)
         << Call("strict_sort", <<a[3], a[6]>>),
            ZERO(Times(a[4].v, a[5].v)),
            Call("inclusion_adv", <<a[1], a[3], a[4]>>),
            Call("inclusion_adv", <<a[2], a[3], a[5]>>) >>
    [] g = "bag_disjoint" ->
         << Call("bag_disjoint_adv", <<a[1], a[2], w[1], w[2], w[3], a[3]>>) >>
    [] g = "set_disjoint" ->
         (* without the first of these a row with selector 2 could stand for an element of both *)
         << Call("sel_valid", <<Vec(w.s)>>), Call("bag_sum", <<a[1], a[2], w>>), Call("strict_sort", <<w, a[3]>>) >>
    [] g = "set_union" ->
         << Call("bag_sum", <<a[1], a[2], w>>), Call("supp", <<w, a[3], a[4]>>) >>
    [] g = "set_diff" ->
         (* a = << A, B, L, M, mult, range >> *)
         << Call("set_disjoint", <<a[3], a[2], a[6]>>), Call("bag_sum", <<a[3], a[4], a[1]>>),
            Call("inclusion_adv", <<a[4], a[2], a[5]>>) >>
    [] g = "set_intersect" ->
         (* a = << A, B, L, M, R, range >> *)
         << Call("bag_sum", <<a[3], a[4], a[1]>>), Call("bag_sum", <<a[4], a[5], a[2]>>),
            Call("set_disjoint", <<a[3], a[5], a[6]>>) >>
    [] g = "join_reduction" ->
         (* a = << A, B, lsel, rsel, range >> *)
         LET L  == WithSel(a[1], Times(a[1].s, a[3].v))
             R  == WithSel(a[2], Times(a[2].s, a[4].v))
             MA == WithSel(a[1], Times(a[1].s, Minus1(a[3].v)))
             MB == WithSel(a[2], Times(a[2].s, Minus1(a[4].v)))
         IN << Call("sel_valid", <<a[3]>>), Call("sel_valid", <<a[4]>>),
               Call("bag_disjoint", <<L, R, a[5]>>), Call("bag_disjoint", <<L, MA, a[5]>>),
               Call("bag_disjoint", <<R, MB, a[5]>>),
               Call("inclusion", <<MA, MB>>), Call("inclusion", <<MB, MA>>) >>
    [] g = "index_transform" ->
         (* a = << IN, OUT >>: rows compared as wholes (the row fingerprint is sampled
            after the columns are committed) *)
         << Call("inclusion", <<RowBag(a[2]), RowBag(a[1])>>) >>
    [] g = "final_join_adv" ->
         (* a = << A, B, ai, bi, cols >> *)
         << Call("index_transform", <<a[1], Tab(a[5], a[2].s)>>),
            ZERO([i \in 1..Size(a[2]) |-> (a[5][a[3]][i] - a[2].c[a[4]][i]) * a[2].s[i]]) >>
    [] g = "final_join" ->
         IF ~JoinPossible(a[1], a[2], a[3], a[4]) THEN <<ERR>>
         ELSE << Call("final_join_adv", <<a[1], a[2], a[3], a[4], w>>) >>
    [] g = "cross_product" ->
         (* a = << A, B, c, k >>: the result is built, not proved; k is claimed to be the
            sum of its column c over the rows of the result *)
         <<ZERO(<<a[4] - SumFn(Times(CrossSel(a[1], a[2]), CrossCols(a[1], a[2])[a[3]]))>>)>>
    [] g = "group_by" ->
         (* a = << T, supp, mult, g, aggs, range >>, aggs = << [col, t, v] .. >> *)
         << Call("supp_adv", <<GroupBag(a[1], a[4]), a[2], a[3], a[6]>>) >> \o
         [k \in 1..Len(a[5]) |->
            IF a[5][k].t = "sum"
            THEN MT(<<GroupBag(a[1], a[4])>>, <<a[2]>>, <<a[1].c[a[5][k].col]>>, <<a[5][k].v>>)
            ELSE ZERO(<<0>>)]

Honest(g, a) ==
  CASE g = "inclusion"     -> InclMult(a[1], a[2])
    [] g = "supp"          -> InclMult(a[1], a[2])
    [] g = "no_zeros"      -> [i \in 1..Size(a[1]) |-> IF a[1].v[i] # 0 THEN 1 ELSE 0]
    [] g = "strict_sort"   -> ShiftLeft(a[1].v)
    [] g = "bag_disjoint"  -> LET c == SortedSupp(a[1], a[2])
                              IN  <<c, Vec(MultCol(a[1], c)), Vec(MultCol(a[2], c))>>
    [] g = "set_disjoint"  -> SortedSum(a[1], a[2])
    [] g = "set_union"     -> Concat(a[1], a[2])
    [] g = "final_join"    -> IF JoinPossible(a[1], a[2], a[3], a[4]) THEN JoinCols(a[1], a[2], a[3], a[4]) ELSE None
    [] OTHER               -> None

(* what a cheating prover may commit.  AdvDom: every column of the right shape over
   a small range (negative multiplicities and non-boolean selectors included: they
   are just field elements).  SmartAdv: the lies that come closest to passing -
   each is consistent with all but one of the claims the gadget ends in. *)
Cols(n, S) == [1..n -> S]
SelDom == (-1)..2
AdvDom(g, a) ==
  CASE g = "inclusion"    -> Cols(Size(a[2]), (-1)..CheatMax)
    [] g = "supp"         -> Cols(Size(a[2]), (-1)..CheatMax)
    (* an arbitrary inverse column: value * w is arbitrary where the value is
       not zero, and zero where it is *)
    [] g = "no_zeros"     -> {w \in Cols(Size(a[1]), 0..1) : \A i \in 1..Size(a[1]) : a[1].v[i] = 0 => w[i] = 0}
    [] g = "strict_sort"  -> Cols(Size(a[1]), 0..CheatMax)
    [] g = "bag_disjoint" -> { <<Bag(v, s), Vec(ma), Vec(mb)>> :
                                 v \in Cols(SumSize(a[1], a[2]), 0..1), s \in Cols(SumSize(a[1], a[2]), {0, 1}),
                                 ma \in Cols(SumSize(a[1], a[2]), 0..1), mb \in Cols(SumSize(a[1], a[2]), 0..1) }
    [] g \in {"set_disjoint", "set_union"} ->
                             { Bag(v, s) : v \in Cols(SumSize(a[1], a[2]), 0..CheatMax), s \in Cols(SumSize(a[1], a[2]), SelDom) }
    [] OTHER              -> {}

FirstAt(b, i) == ~\E k \in 1..(i - 1) : b.s[k] # 0 /\ b.v[k] = b.v[i]
LastAt(b, i)  == ~\E k \in (i + 1)..Size(b) : b.s[k] # 0 /\ b.v[k] = b.v[i]
OneEach(b)    == WithSel(b, [i \in 1..Size(b) |-> IF b.s[i] # 0 /\ FirstAt(b, i) THEN 1 ELSE 0])
Steps01(r)    == {d \in Ran(r.v) : d > 0 /\ d <= 3}
SmartAdv(g, a) ==
  CASE g = "strict_sort" ->
         LET v == a[1].v
             n == Size(a[1])
         IN (* a "shift" that looks strictly sorted, everywhere or only where it must lie *)
            { [i \in 1..n |-> IF i < n THEN v[i] + d ELSE v[1]] : d \in Steps01(a[2]) }
            \cup { [i \in 1..n |-> IF i = n THEN v[1] ELSE IF (v[i + 1] - v[i]) \in Ran(a[2].v) \ {0} THEN v[i + 1] ELSE v[i] + d] : d \in Steps01(a[2]) }
    [] g \in {"inclusion", "supp"} ->
         LET m == InclMult(a[1], a[2]) IN
         (* multiplicities that are nowhere zero / that sit on rows that are switched off *)
         { [j \in 1..Len(m) |-> IF m[j] = 0 THEN 1 ELSE m[j]],
           [j \in 1..Len(m) |-> Mult(a[1], a[2].v[j])],
           [j \in 1..Len(m) |-> IF a[2].s[j] # 0 /\ LastAt(a[2], j) THEN Mult(a[1], a[2].v[j]) ELSE 0] }
         \cup (IF g = "supp"
               THEN (* split the multiplicity of a repeated value over its rows *)
                    { [j \in 1..Len(m) |-> IF a[2].s[j] = 0 THEN 0 ELSE IF FirstAt(a[2], j) THEN Mult(a[1], a[2].v[j]) - (Mult(a[2], a[2].v[j]) - 1) ELSE 1] }
               ELSE {})
    [] g = "bag_disjoint" ->
         LET c  == SortedSupp(a[1], a[2])
             ma == MultCol(a[1], c)
             mb == MultCol(a[2], c)
             n  == Size(c)
             c2 == SortedSum(OneEach(a[1]), OneEach(a[2]))   \* common values twice
         IN { <<c, Vec(ma), Vec([i \in 1..n |-> IF ma[i] # 0 THEN 0 ELSE mb[i]])>>,
              <<c, Vec([i \in 1..n |-> IF mb[i] # 0 THEN 0 ELSE ma[i]]), Vec(mb)>>,
              <<c2, Vec([i \in 1..n |-> IF c2.s[i] # 0 /\ FirstAt(c2, i) THEN Mult(a[1], c2.v[i]) ELSE 0]),
                    Vec([i \in 1..n |-> IF c2.s[i] # 0 /\ LastAt(c2, i) THEN Mult(a[2], c2.v[i]) ELSE 0])>>,
              <<WithSel(c2, [i \in 1..n |-> IF FirstAt(c2, i) THEN c2.s[i] ELSE 0 - c2.s[i]]),
                    Vec([i \in 1..n |-> IF c2.s[i] # 0 /\ FirstAt(c2, i) THEN Mult(a[1], c2.v[i]) ELSE 0]),
                    Vec([i \in 1..n |-> IF c2.s[i] # 0 /\ LastAt(c2, i) THEN 0 - Mult(a[2], c2.v[i]) ELSE 0])>> }
    [] g = "set_disjoint" ->
         LET c == SortedSupp(a[1], a[2]) IN
         { c,                                                \* common values once
           (* common values once, but counted as often as they occur *)
           WithSel(c, [i \in 1..Size(c) |-> IF c.s[i] = 0 THEN 0 ELSE Mult(a[1], c.v[i]) + Mult(a[2], c.v[i])]),
           (* every row there, repetitions switched off *)
           OneEach(SortedSum(a[1], a[2])) }
    [] g = "set_union" ->
         LET n == SumSize(a[1], a[2])
             u == a[3]
             h == Concat(a[1], a[2])
         IN (IF Size(u) <= n
             THEN { Bag(PadFront(u.v, n, 0), PadFront(u.s, n, 0)) } ELSE {})
            \cup { OneEach(h), SortedSupp(a[1], a[2]),
                   WithSel(h, [i \in 1..n |-> IF h.v[i] \in Vals(u) THEN h.s[i] ELSE 0]) }
    [] OTHER -> {}

(* an honest advice with a cell or two changed *)
SelEdit(s) == LET i == TLCEval(RandomElement(1..Len(s))) IN TLCEval([s EXCEPT ![i] = RandomElement(SelDom \ {s[i]})])
EditBagAny(b) == IF RandomElement({1, 2}) = 1 THEN [b EXCEPT !.v = EditCol(@)] ELSE [b EXCEPT !.s = SelEdit(@)]
Smudge(g, w) ==
  CASE g \in {"inclusion", "supp", "strict_sort"} -> EditCol(w)
    [] g \in {"set_disjoint", "set_union"} -> EditBagAny(w)
    [] g = "bag_disjoint" -> LET k == TLCEval(RandomElement(1..3)) IN
                             IF k = 1 THEN [w EXCEPT ![1] = EditBagAny(@)] ELSE [w EXCEPT ![k].v = EditCol(@)]
    [] OTHER -> w
Smudged(g, a) == LET w == TLCEval(Smudge(g, Honest(g, a))) IN IF RandomElement({1, 2}) = 1 THEN w ELSE TLCEval(Smudge(g, w))

(* the columns an advice is committed as, in order *)
AdvCols(g, w) ==
  CASE g \in {"inclusion", "supp", "strict_sort"} -> <<w>>
    [] g = "bag_disjoint" -> <<w[1].v, w[1].s, w[2].v, w[3].v>>
    [] g \in {"set_disjoint", "set_union"} -> <<w.v, w.s>>
    [] OTHER -> <<>>

(* a lookup whose two sides differ can still be made to add up by falsifying one of
   the committed "inverse" columns; the claim that this column is what it should be
   fails then.  Which of the columns (f bags, then g bags) can carry the lie: *)
MTTargets(c) ==
    LET bs == c.a[1] \o c.a[2]
        ms == c.a[3] \o c.a[4]
    IN {t \in 1..Len(bs) : \E i \in 1..Len(bs[t].v) : bs[t].s[i] * ms[t][i] # 0}
MTLie(c, t) == [op |-> "MT", rows |-> c.a[1][1].k = "rows", inv |-> <<>>, from |-> <<>>, to |-> <<>>, t |-> t - 1, nf |-> Len(c.a[1]),
                v |-> [i \in 1..Len(c.a[1] \o c.a[2]) |-> (c.a[1] \o c.a[2])[i].v],
                w |-> [i \in 1..Len(c.a[1] \o c.a[2]) |-> Times((c.a[1] \o c.a[2])[i].s, (c.a[3] \o c.a[4])[i])]]

(* ----------------------------------------------------------- relations -- *)
(* what the caller of verify is entitled to conclude                        *)
SortRel(b, range) ==
    LET n == Size(b) IN
    /\ \A i \in 1..(n - 1) : (b.v[i + 1] - b.v[i]) \in Ran(range.v)
    /\ \A i \in Active(b)  : i < n => b.v[i + 1] # b.v[i]

SuppAdvRel(bag, supp, m, range) ==
    /\ \A x \in Ran(bag.v) \cup Ran(supp.v) : Mult(bag, x) = Weight(supp, m.v, x)
    /\ \A j \in Active(supp) : m.v[j] # 0
    /\ SortRel(supp, range)

Rel(g, a) ==
  CASE g = "multitool"     -> /\ a[1] # <<>> /\ a[2] # <<>> /\ Len(a[1]) = Len(a[3]) /\ Len(a[2]) = Len(a[4])
                              /\ \A x \in BagsVals(a[1]) \cup BagsVals(a[2]) :
                                    SumOver(a[1], a[3], x) = SumOver(a[2], a[4], x)
    [] g = "bag_eq"        -> BagEqual(a[1], a[2])
    [] g = "bag_sum"       -> \A x \in Vals(a[1]) \cup Vals(a[2]) \cup Vals(a[3]) :
                                 Mult(a[1], x) + Mult(a[2], x) = Mult(a[3], x)
    [] g = "inclusion"     -> Vals(a[1]) \subseteq Vals(a[2])
    [] g = "inclusion_adv" -> \A x \in Ran(a[1].v) \cup Ran(a[2].v) : Mult(a[1], x) = Weight(a[2], a[3].v, x)
    [] g = "no_zeros"      -> 0 \notin Vals(a[1])
    [] g = "sel_valid"     -> Boolean01(a[1].v)
    [] g = "presc_perm"    -> /\ Size(a[1]) = Size(a[2]) /\ Size(a[1]) = Len(a[3].v)
                              (* g's row i is f's row perm(i), and perm is a permutation *)
                              /\ \A i \in 1..Len(a[3].v) : a[3].v[i] \in 0..(Len(a[3].v) - 1)
                              /\ \A i, j \in 1..Len(a[3].v) : a[3].v[i] = a[3].v[j] => i = j
                              /\ \A i \in 1..Len(a[3].v) : a[2].v[i] = a[1].v[a[3].v[i] + 1]
    [] g = "strict_sort"   -> SortRel(a[1], a[2])
    [] g = "supp_adv"      -> SuppAdvRel(a[1], a[2], a[3], a[4])
    [] g = "supp"          -> Vals(a[1]) = Vals(a[2]) /\ DupFree(a[2]) /\ SortRel(a[2], a[3])
    [] g = "bag_disjoint_adv" ->
                              /\ SortRel(a[3], a[6])
                              /\ \A i \in 1..Size(a[3]) : a[4].v[i] = 0 \/ a[5].v[i] = 0
                              /\ \A x \in Ran(a[1].v) \cup Ran(a[3].v) : Mult(a[1], x) = Weight(a[3], a[4].v, x)
                              /\ \A x \in Ran(a[2].v) \cup Ran(a[3].v) : Mult(a[2], x) = Weight(a[3], a[5].v, x)
    [] g = "bag_disjoint"  -> Disjoint(a[1], a[2])
    [] g = "set_disjoint"  -> Disjoint(a[1], a[2]) /\ DupFree(a[1]) /\ DupFree(a[2])
    [] g = "set_union"     -> Vals(a[1]) \cup Vals(a[2]) = Vals(a[3]) /\ DupFree(a[3]) /\ SortRel(a[3], a[4])
    [] g = "set_diff"      -> /\ Disjoint(a[3], a[2]) /\ DupFree(a[3]) /\ DupFree(a[2])
                              /\ \A x \in Vals(a[1]) \cup Vals(a[3]) \cup Vals(a[4]) :
                                    Mult(a[1], x) = Mult(a[3], x) + Mult(a[4], x)
                              /\ \A x \in Ran(a[4].v) \cup Ran(a[2].v) : Mult(a[4], x) = Weight(a[2], a[5].v, x)
    [] g = "set_intersect" -> /\ \A x \in Vals(a[1]) \cup Vals(a[3]) \cup Vals(a[4]) :
                                    Mult(a[1], x) = Mult(a[3], x) + Mult(a[4], x)
                              /\ \A x \in Vals(a[2]) \cup Vals(a[5]) \cup Vals(a[4]) :
                                    Mult(a[2], x) = Mult(a[4], x) + Mult(a[5], x)
                              /\ Disjoint(a[3], a[5]) /\ DupFree(a[3]) /\ DupFree(a[5])
    [] g = "join_reduction" -> /\ Boolean01(a[3].v) /\ Boolean01(a[4].v)
                               /\ \A i \in Active(a[1]) : (a[3].v[i] = 1) <=> (a[1].v[i] \notin Vals(a[2]))
                               /\ \A i \in Active(a[2]) : (a[4].v[i] = 1) <=> (a[2].v[i] \notin Vals(a[1]))
    [] g = "index_transform" -> Rows(a[2]) \subseteq Rows(a[1])
    [] g = "final_join_adv" -> \A i \in Active(a[2]) :
                                  /\ [c \in 1..Len(a[1].c) |-> a[5][c][i]] \in Rows(a[1])
                                  /\ a[5][a[3]][i] = a[2].c[a[4]][i]
    [] g = "final_join"    -> JoinPossible(a[1], a[2], a[3], a[4])
    [] g = "cross_product" -> (* every pair of rows exactly once *)
                              a[4] = SumFn([i \in 1..Size(a[1]) |-> SumFn([j \in 1..Size(a[2]) |->
                                        IF a[1].s[i] # 0 /\ a[2].s[j] # 0
                                        THEN (a[1].c \o [q \in 1..Len(a[2].c) |-> Fill(Size(a[1]), 0)])[a[3]][i]
                                             + ([q \in 1..Len(a[1].c) |-> Fill(Size(a[2]), 0)] \o a[2].c)[a[3]][j]
                                        ELSE 0])])
    [] g = "group_by"      -> LET grp == GroupBag(a[1], a[4]) IN
                              /\ SuppAdvRel(grp, a[2], a[3], a[6])
                              /\ \A k \in 1..Len(a[5]) : a[5][k].t = "sum" =>
                                   \A j \in Active(a[2]) : a[5][k].v[j] = AggSum(a[1], a[4], a[5][k].col, a[2])[j]

(* when an honest prover is promised to succeed: selectors are boolean, and for
   the gadgets that sort internally the range column covers the gaps *)
SelsOK(g, a) == LET q == Inputs(g, a) IN
                \A i \in 1..Len(q) : q[i].k # "vec" => Boolean01(q[i].s)
RangeArg(g, a) == CASE g \in {"bag_disjoint", "set_disjoint"} -> a[3]
                    [] g = "set_diff" -> a[6]
                    [] g = "set_intersect" -> a[6]
                    [] g = "join_reduction" -> a[5]
                    [] OTHER -> Vec(<<>>)
AllInts(g, a) == UNION {Ran(a[i].v) : i \in 1..2}
RangeCovers(g, a) == LET r == RangeArg(g, a) IN
    r.v = <<>> \/ ( /\ \A x \in AllInts(g, a) : x >= 0
                   /\ 0..MaxSet(AllInts(g, a)) \subseteq Ran(r.v)
                   /\ \A x \in Ran(r.v) : x >= 0 )
RangeSane(g, a) ==
    LET r == CASE g \in {"strict_sort"} -> a[2]
               [] g = "supp" -> a[3] [] g = "supp_adv" -> a[4]
               [] g = "set_union" -> a[4] [] g = "bag_disjoint_adv" -> a[6] [] g = "group_by" -> a[6]
               [] OTHER -> RangeArg(g, a)
    IN \A x \in Ran(r.v) : x >= 0

(* ---------------------------------------------- a run as a replayable case *)
Expected(b) == IF b THEN "accept" ELSE "reject"
Iota(n) == [i \in 1..n |-> i - 1]
(* a join on a key that is not unique is outside what the gadget promises: debug
   builds refuse it, release builds answer with one of the matching rows *)
KeyUnique(t, c) == \A i, j \in Active(t) : t.c[c][i] = t.c[c][j] => i = j
Outs(g, a, ok) ==
    IF ~ok THEN <<>>
    ELSE CASE g = "final_join" -> << [at |-> 2, c |-> JoinCols(a[1], a[2], a[3], a[4]) \o a[2].c, s |-> a[2].s, noemb |-> <<>>] >>
           [] g = "final_join_adv" -> << [at |-> 2 + Len(a[5]), c |-> a[5] \o a[2].c, s |-> a[2].s, noemb |-> <<>>] >>
           [] g = "cross_product" -> << [at |-> 2, c |-> CrossCols(a[1], a[2]), s |-> CrossSel(a[1], a[2]), noemb |-> <<>>] >>
           [] g = "group_by" ->
                << [at |-> 4 + Len(a[5]), s |-> a[2].s,
                    c |-> <<a[2].v>> \o [i \in 1..Len(a[5]) |-> IF a[5][i].t = "sum" THEN a[5][i].v ELSE a[3].v],
                    noemb |-> LET RECURSIVE Q(_)
                                  Q(i) == IF i = 0 THEN <<>> ELSE Q(i - 1) \o (IF a[5][i].t = "sum" THEN <<>> ELSE <<i>>)
                              IN  Q(Len(a[5]))] >>
           [] OTHER -> <<>>
Steps(g, a) ==
    IF g = "cross_product"
    THEN << [op |-> g, args |-> <<0, 1>>, p |-> [x |-> 0]],
            [op |-> "tabcol", args |-> <<2>>, p |-> [i |-> a[3] - 1]],
            [op |-> "tabsel", args |-> <<2>>, p |-> [x |-> 0]],
            [op |-> "mul", args |-> <<3, 4>>, p |-> [x |-> 0]],
            [op |-> "sum", args |-> <<5>>, p |-> [c |-> a[4]]] >>
    ELSE << [op |-> g, args |-> Iota(Len(Inputs(g, a))), p |-> Params(g, a)] >>
Verdict(g, a, ok) == IF g \in {"final_join", "final_join_adv"} /\ ~KeyUnique(a[1], a[3]) THEN "any"
                     ELSE IF ~ok /\ Rel(g, a) THEN "any"   \* true, but outside what an honest prover is promised
                     ELSE Expected(ok)
(* fails: which of the leaf claims, in order, do not hold *)
CaseOf(g, a, ok, fails) == [fails |-> fails, in |-> Inputs(g, a), steps |-> Steps(g, a), outs |-> Outs(g, a, ok),
                     expect |-> Verdict(g, a, ok), embs |-> Embs(g), g |-> g]
CheatOf(g, a, lies, fails) == [in |-> Inputs(g, a), steps |-> Steps(g, a), outs |-> <<>>, expect |-> "never",
                     embs |-> <<"id">>, g |-> g, fails |-> fails, plain |-> TRUE, cheat |-> lies]
=============================================================================
