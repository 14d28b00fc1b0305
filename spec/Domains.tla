------------------------------- MODULE Domains -------------------------------
(* Where inputs of the gadgets come from: small exhaustive domains, random    *)
(* inputs built so that the relation holds, single-cell edits of them; and    *)
(* how a run is written down for the conformance harness.                     *)
EXTENDS Vecs

CONSTANTS VMax, MMax, RandV,
          Sizes, Ranges, CrossMax,     \* random columns: their lengths, the ranges that go with them, rows of a cross factor
          CheatKeep                    \* 1 in CheatKeep adversarial runs is printed

D_Cols(n, S) == [1..n -> S]
Bits(n)  == [1..n -> {0, 1}]
Bags(n, m) == {Bag(v, s) : v \in D_Cols(n, 0..m), s \in Bits(n)}
Tabs(n, c, m) == {Tab(cs, s) : cs \in [1..c -> D_Cols(n, 0..m)], s \in Bits(n)}
RangeBag(v) == Bag(v, Fill(Len(v), 1))
Range03 == RangeBag(<<0, 1, 2, 3>>)
Range07 == RangeBag(<<0, 1, 2, 3, 4, 5, 6, 7>>)

MVec(S) == {Vec(v) : v \in S}

Dom(g) ==
  LET b2 == Bags(2, VMax) IN
  CASE g = "multitool" ->
         { <<<<x>>, <<y>>, <<m>>, <<k>>>> : x \in Bags(2, 1), y \in Bags(2, 1), m \in D_Cols(2, 0..1), k \in D_Cols(2, (-1)..1) }
         \cup { <<<<>>, <<x>>, <<>>, <<Ones(2)>>>> : x \in Bags(2, 0) }
         \cup { <<<<x>>, <<>>, <<Ones(2)>>, <<>>>> : x \in Bags(2, 0) }
         \cup { <<<<x>>, <<x>>, <<Ones(2), Ones(2)>>, <<Ones(2)>>>> : x \in Bags(2, 0) }
         \cup { <<<<x>>, <<x>>, <<Ones(2)>>, <<Ones(2), Ones(2)>>>> : x \in Bags(2, 0) }
    [] g = "bag_eq" -> b2 \X b2
    [] g = "bag_sum" -> Bags(2, 1) \X Bags(2, 1) \X Bags(2, 1)
    [] g = "inclusion" -> b2 \X b2
    [] g = "inclusion_adv" -> b2 \X b2 \X MVec(D_Cols(2, 0..MMax))
    [] g = "no_zeros" -> {<<b>> : b \in Bags(2, VMax) \cup Bags(4, MinInt(VMax, 2))}
    [] g = "sel_valid" -> {<<Vec(v)>> : v \in D_Cols(2, (-1)..3) \cup D_Cols(4, (-1)..2)}
    [] g = "presc_perm" -> { <<Bag(f, s), Bag(h, Ones(2)), Vec(p)>> : f \in D_Cols(2, 0..VMax), h \in D_Cols(2, 0..VMax),
                                                                       p \in D_Cols(2, 0..2), s \in {<<1, 1>>, <<0, 1>>} }
                           \cup { <<Bag(f, Ones(2)), Bag(h, Ones(4)), Vec(p)>> : f \in D_Cols(2, 0..0), h \in D_Cols(4, 0..0), p \in {<<0, 1>>} }
    [] g = "strict_sort" -> { <<b, r>> : b \in Bags(4, MinInt(VMax, 2)), r \in {Range03, RangeBag(<<0, 1>>), RangeBag(<<1, 2>>)} }
    [] g = "supp" -> { <<x, y, Range03>> : x \in b2, y \in b2 }
    [] g = "supp_adv" -> { <<x, y, m, Range03>> : x \in b2, y \in b2, m \in MVec(D_Cols(2, 0..MMax)) }
    [] g = "bag_disjoint" -> { <<x, y, Range03>> : x \in b2, y \in b2 }
    [] g = "bag_disjoint_adv" -> { <<x, y, c, ma, mb, Range03>> : x \in Bags(2, 1), y \in Bags(2, 1), c \in Bags(2, 1),
                                       ma \in MVec(D_Cols(2, 0..1)), mb \in MVec(D_Cols(2, 0..1)) }
    [] g = "set_disjoint" -> { <<x, y, Range03>> : x \in b2, y \in b2 }
    [] g = "set_union" -> { <<x, y, u, Range03>> : x \in Bags(2, 1), y \in Bags(2, 1), u \in Bags(2, 1) \cup {Bag(<<0,0,1,2>>, <<0,0,1,1>>)} }
    [] g = "set_diff" -> { <<x, y, Bag(x.v, [i \in 1..2 |-> x.s[i] * t[i]]), Bag(x.v, [i \in 1..2 |-> x.s[i] * (1 - t[i])]), m, Range03>> :
                             x \in Bags(2, 1), y \in Bags(2, 1), t \in Bits(2), m \in MVec(D_Cols(2, 0..1)) }
    [] g = "set_intersect" -> { <<x, y, Bag(x.v, [i \in 1..2 |-> x.s[i] * t[i]]), Bag(x.v, [i \in 1..2 |-> x.s[i] * (1 - t[i])]),
                                  Bag(y.v, r), Range03>> : x \in Bags(2, 1), y \in Bags(2, 1), t \in Bits(2), r \in Bits(2) }
    [] g = "join_reduction" -> { <<x, y, Vec(l), Vec(r), Range03>> : x \in Bags(2, 1), y \in Bags(2, 1), l \in Bits(2), r \in Bits(2) }
                               \cup { <<x, y, Vec(l), Vec(r), Range03>> : x \in Bags(2, 0), y \in Bags(2, 1), l \in D_Cols(2, {0, 2}), r \in Bits(2) }
    [] g = "index_transform" -> Tabs(2, 2, 1) \X Tabs(2, 2, 1)
    [] g = "final_join" -> { <<x, y, i, 1>> : x \in Tabs(2, 2, 1), y \in Tabs(2, 1, 1), i \in {1, 2} }
    [] g = "final_join_adv" -> { <<x, y, i, 1, cs>> : x \in {t \in Tabs(2, 2, 1) : ~(t.s = <<1, 1>> /\ t.c[1][1] = t.c[1][2])},
                                                      y \in Tabs(2, 1, 1), i \in {1}, cs \in [1..2 -> D_Cols(2, 0..1)] }
    [] g = "group_by" -> { <<t, u, m, 1, <<[col |-> 2, t |-> "sum", v |-> h], [col |-> 1, t |-> "count", v |-> h]>>, Range03>> :
                             t \in Tabs(2, 2, 1), u \in Bags(2, 1), m \in MVec(D_Cols(2, 0..2)), h \in D_Cols(2, 0..MMax) }
    [] g = "cross_product" -> { <<x, y, c, k>> : x \in Tabs(2, 1, 1), y \in Tabs(2, 1, 1), c \in {1, 2}, k \in 0..4 }

(* ------------------------------------------- random, relation-satisfying -- *)
RV(n, S)   == TLCEval([i \in 1..n |-> RandomElement(S)])
RSel(n)    == RV(n, {0, 1, 1, 1, 2} \ {2})
RBag(n, m) == TLCEval(Bag(RV(n, 0..m), IF RandomElement(1..4) = 1 THEN Fill(n, 1) ELSE RSel(n)))
RSize(z_)  == RandomElement(Sizes)
(* mostly lo..hi of something, now and then up to top *)
RCount(lo, hi, top) == IF RandomElement(1..6) = 1 THEN RandomElement(hi..top) ELSE RandomElement(lo..hi)
RECURSIVE Ceil2(_)
Ceil2(n)   == IF n <= 1 THEN 1 ELSE 2 * Ceil2((n + 1) \div 2)
Sorted(S, n) == LET q == TLCEval(SetToSortedSeq(S))
                IN  Bag([i \in 1..n |-> IF i <= n - Len(q) THEN 0 ELSE q[i - (n - Len(q))]],
                        [i \in 1..n |-> IF i <= n - Len(q) THEN 0 ELSE 1])
MultOn(b, c) == [j \in 1..Len(c.s) |-> IF c.s[j] = 0 THEN 0 ELSE Mult(b, c.v[j])]
FirstMultOn(b, c) == [j \in 1..Len(c.s) |-> IF c.s[j] = 0 \/ (\E k \in 1..(j - 1) : c.s[k] # 0 /\ c.v[k] = c.v[j])
                                            THEN 0 ELSE Mult(b, c.v[j])]
Shuffle(n) == LET RECURSIVE P(_, _)
                  P(S, q) == IF S = {} THEN q ELSE LET x == TLCEval(RandomElement(S)) IN P(S \ {x}, Append(q, x))
              IN  TLCEval(P(1..n, <<>>))
(* the same bag in another order, perhaps in a longer column *)
Reorder(b, n) == LET p == Shuffle(n) IN
    TLCEval(Bag([i \in 1..n |-> IF p[i] <= Len(b.v) THEN b.v[p[i]] ELSE 5],
                [i \in 1..n |-> IF p[i] <= Len(b.v) THEN b.s[p[i]] ELSE 0]))
JoinB(a, b, n) == TLCEval(Bag([i \in 1..n |-> IF i <= Len(a.v) THEN a.v[i] ELSE IF i <= Len(a.v) + Len(b.v) THEN b.v[i - Len(a.v)] ELSE 3],
                      [i \in 1..n |-> IF i <= Len(a.v) THEN a.s[i] ELSE IF i <= Len(a.v) + Len(b.v) THEN b.s[i - Len(a.v)] ELSE 0]))
(* a bag whose active values are the given set, each once, in random order *)
SetBag(S, n) == LET b == Sorted(S, n) IN Reorder(b, n)
RSub(S)      == TLCEval({x \in S : RandomElement({TRUE, FALSE})})
RRange(z_)   == LET n == RandomElement(Ranges) IN RangeBag([i \in 1..n |-> i - 1])

(* lists of k bags over three: the weights of each of the three add up to the same on both sides *)
MultiList(k, bs) ==
  LET kf == TLCEval(RandomElement(1..k))
      fb == TLCEval([q \in 1..kf |-> RandomElement(1..3)])                      \* which of the three it is
      mf == TLCEval([q \in 1..kf |-> RV(Len(bs[fb[q]].v), 0..2)])
      gf == TLCEval([q \in 1..kf |-> RandomElement({0, 0, 1})])                 \* which of two entries on the right takes it
      used == TLCEval(SetToSortedSeq({2 * fb[q] : q \in 1..kf} \cup {2 * fb[q] + gf[q] : q \in 1..kf}))
      ord == Shuffle(Len(used))
      gs == TLCEval([h \in 1..Len(used) |-> <<used[ord[h]] \div 2, used[ord[h]] % 2>>])
      tot(p) == TLCEval([i \in 1..Len(bs[p[1]].v) |-> SumFn([q \in 1..kf |-> IF fb[q] = p[1] /\ gf[q] = p[2] THEN mf[q][i] ELSE 0])])
  IN  TLCEval(<<[q \in 1..kf |-> bs[fb[q]]], [h \in 1..Len(gs) |-> bs[gs[h][1]]], mf, [h \in 1..Len(gs) |-> tot(gs[h])]>>)


(* some columns are copies of an earlier one (column x keeps its own) *)
Copies(cols, x) == TLCEval([c \in 1..Len(cols) |-> IF c > 1 /\ c # x /\ RandomElement(1..4) = 1 THEN cols[RandomElement(1..(c - 1))] ELSE cols[c]])

(* in random runs the values used stay inside the range that goes with them *)
Good(g) ==
  LET n  == TLCEval(RSize(0))
      n2 == TLCEval(RSize(0))
      r  == TLCEval(RRange(0))
      mx == Len(r.v) - 1
      b  == TLCEval(RBag(n, MinInt(mx, RandV)))
      b2 == TLCEval(RBag(n2, MinInt(mx, RandV)))
      S  == TLCEval(RSub(0..mx))
      Q  == TLCEval(RSub(0..mx))
      sz(X) == TLCEval(Ceil2(Cardinality(X)) * RandomElement({1, 1, 2}))
  IN
  CASE g = "multitool" ->
         (* split the weight of g's rows over two f bags *)
         LET m1 == RV(n, 0..2)
             rest == RV(n, 0..1)
             w == TLCEval(RandomElement(1..3))
         IN IF w = 1 /\ n <= 64 THEN MultiList(TLCEval(RandomElement(1..6)), TLCEval([q \in 1..3 |-> RBag(MinInt(n, RSize(q)), MinInt(mx, RandV))]))
            ELSE IF w = 2
            THEN <<<<b, b>>, <<b>>, <<m1, rest>>, <<[i \in 1..n |-> m1[i] + rest[i]]>>>>
            ELSE LET c == Reorder(b, n * RandomElement({1, 2})) IN <<<<b, b2>>, <<c, b2>>, <<Ones(n), RV(n2, {1})>>, <<Ones(Len(c.v)), Ones(n2)>>>>
    [] g = "bag_eq"  -> <<b, Reorder(b, n)>>     \* the gadget asks for columns of the same length
    [] g = "bag_sum" -> <<b, b2, LET c == JoinB(b, b2, Ceil2(n + n2)) IN Reorder(c, Ceil2(n + n2))>>
    [] g \in {"inclusion", "inclusion_adv"} ->
         LET extra == RBag(n2, RandV)
             sup == TLCEval(JoinB(b, extra, Ceil2(n + n2)))
             sp2 == Reorder(sup, Ceil2(n + n2))
         IN IF g = "inclusion" THEN <<b, sp2>> ELSE <<b, sp2, Vec(FirstMultOn(b, sp2))>>
    [] g = "no_zeros"  -> LET v == RV(n, 0..3) IN <<Bag(v, [i \in 1..n |-> IF v[i] = 0 THEN 0 ELSE RandomElement({0, 1, 1})])>>
    [] g = "sel_valid" -> <<Vec(RV(n, {0, 1}))>>
    [] g = "presc_perm" -> LET p == Shuffle(n)
                               s == RSel(n) IN
                           <<Bag(b.v, s), Bag([i \in 1..n |-> b.v[p[i]]], RSel(n)), Vec([i \in 1..n |-> p[i] - 1])>>
    [] g = "strict_sort" -> <<Sorted(S, sz(S)), r>>
    [] g \in {"supp", "supp_adv"} ->
         LET u == Sorted(Vals(b), sz(Vals(b))) IN
         IF g = "supp" THEN <<b, u, r>> ELSE <<b, u, Vec(MultOn(b, u)), r>>
    [] g \in {"bag_disjoint", "bag_disjoint_adv"} ->
         LET bb == TLCEval(Bag(b2.v, [i \in 1..n2 |-> IF b2.v[i] \in Vals(b) THEN 0 ELSE b2.s[i]]))
             U  == Vals(b) \cup Vals(bb)
             c  == TLCEval(Sorted(U, sz(U)))
         IN IF g = "bag_disjoint" THEN <<b, bb, r>> ELSE <<b, bb, c, Vec(MultOn(b, c)), Vec(MultOn(bb, c)), r>>
    [] g = "set_disjoint" -> <<SetBag(S, sz(S)), SetBag(Q \ S, sz(Q \ S)), r>>
    [] g = "set_union" -> LET U == TLCEval(S \cup Q) IN <<SetBag(S, sz(S)), SetBag(Q, sz(Q)), Sorted(U, sz(U)), r>>
    [] g = "set_diff" ->
         LET B == SetBag(Q, sz(Q))
             M == SetBag(S \cap Q, sz(S \cap Q))
         IN <<SetBag(S, sz(S)), B, SetBag(S \ Q, sz(S \ Q)), M, Vec(FirstMultOn(M, B)), r>>
    [] g = "set_intersect" -> <<SetBag(S, sz(S)), SetBag(Q, sz(Q)), SetBag(S \ Q, sz(S \ Q)), SetBag(S \cap Q, sz(S \cap Q)), SetBag(Q \ S, sz(Q \ S)), r>>
    [] g = "join_reduction" ->
         <<b, b2, Vec([i \in 1..n |-> IF b.s[i] = 0 THEN RandomElement({0, 1}) ELSE IF b.v[i] \in Vals(b2) THEN 0 ELSE 1]),
           Vec([i \in 1..n2 |-> IF b2.s[i] = 0 THEN RandomElement({0, 1}) ELSE IF b2.v[i] \in Vals(b) THEN 0 ELSE 1]), r>>
    [] g = "index_transform" ->
         LET k  == TLCEval(RCount(1, 5, 9))
             t  == TLCEval(Tab(Copies([c \in 1..k |-> RV(n, 0..2)], 0), [i \in 1..n |-> IF i = 1 THEN 1 ELSE RandomElement({0, 1, 1})]))
             ix == TLCEval([i \in 1..n2 |-> RandomElement(Active(t))])
             s2 == RSel(n2)
         IN <<t, Tab([c \in 1..k |-> [i \in 1..n2 |-> IF s2[i] = 1 THEN t.c[c][ix[i]] ELSE RandomElement(0..2)]], s2)>>
    [] g \in {"final_join", "final_join_adv"} ->
         LET ka == TLCEval(RCount(1, 3, 6))
             kb == TLCEval(RCount(1, 2, 5))
             ai == TLCEval(RandomElement(1..ka))
             bi == TLCEval(RandomElement(1..kb))
             key == Shuffle(n)
             ta == TLCEval(Tab(Copies([c \in 1..ka |-> IF c = ai THEN key ELSE RV(n, 0..2)], ai), [i \in 1..n |-> IF i = 1 THEN 1 ELSE RandomElement({0, 1, 1})]))
             s2 == RSel(n2)
             ix == TLCEval([i \in 1..n2 |-> RandomElement(Active(ta))])
             tb == TLCEval(Tab([c \in 1..kb |-> IF c = bi THEN [i \in 1..n2 |-> IF s2[i] = 1 THEN key[ix[i]] ELSE RandomElement(0..4)] ELSE RV(n2, 0..2)], s2))
             cols == TLCEval([c \in 1..ka |-> [i \in 1..n2 |-> IF s2[i] = 1 THEN ta.c[c][ix[i]] ELSE RandomElement({0, 0, 2})]])
         IN IF g = "final_join" THEN <<ta, tb, ai, bi>> ELSE <<ta, tb, ai, bi, cols>>
    [] g = "group_by" ->
         LET k == TLCEval(RCount(1, 3, 6))
             gc == TLCEval(RandomElement(1..k))
             t == TLCEval(Tab(Copies([c \in 1..k |-> RV(n, 0..(IF c = gc THEN MinInt(mx, RandV) ELSE 5))], gc), RSel(n)))
             gb == Bag(t.c[gc], t.s)
             \* the verifier takes the support to be as long as the input table
             u == TLCEval(Sorted(Vals(gb), n))
             agg(col) == [j \in 1..n |-> IF u.s[j] = 0 THEN RandomElement({0, 0, 3})
                            ELSE SumFn([i \in 1..n |-> IF t.s[i] # 0 /\ t.c[gc][i] = u.v[j] THEN t.c[col][i] ELSE 0])]
             na == TLCEval(RCount(0, 2, 6))
             one(col, ty) == [col |-> col, t |-> ty, v |-> IF ty = "sum" THEN TLCEval(agg(col)) ELSE RV(n, 0..1)]
             ag1 == TLCEval([j \in 1..na |-> one(RandomElement(1..k), RandomElement({"sum", "sum", "count"}))])
             \* now and then one of the instructions is given twice
             aggs == TLCEval(IF na > 0 /\ RandomElement(1..2) = 1 THEN Append(ag1, ag1[RandomElement(1..na)]) ELSE ag1)
         IN <<t, u, Vec(MultOn(gb, u)), gc, aggs, r>>
    [] g = "cross_product" ->
         LET ka == TLCEval(RCount(1, 2, 5))
             kb == TLCEval(RCount(1, 2, 5))
             nn == MinInt(n, CrossMax)
             ta == TLCEval(Tab(Copies([c \in 1..ka |-> RV(nn, 0..3)], 0), RSel(nn)))
             tb == TLCEval(Tab([c \in 1..kb |-> RV(MinInt(n2, CrossMax), 0..3)], RSel(MinInt(n2, CrossMax))))
             c  == TLCEval(RandomElement(1..(ka + kb)))
             sA == SumFn(ta.s)
             sB == SumFn(tb.s)
             tot == IF c <= ka THEN sB * SumFn([i \in 1..Len(ta.s) |-> ta.s[i] * ta.c[c][i]])
                    ELSE sA * SumFn([i \in 1..Len(tb.s) |-> tb.s[i] * tb.c[c - ka][i]])
         IN <<ta, tb, c, tot>>

(* ------------------------------------------------------ single-cell edits -- *)
Cell(v)   == LET i == TLCEval(RandomElement(1..Len(v))) IN TLCEval([v EXCEPT ![i] = RandomElement((0..MaxInt(4, RandV + 1)) \ {v[i]})])
Flip(s)   == LET i == TLCEval(RandomElement(1..Len(s))) IN TLCEval([s EXCEPT ![i] = 1 - s[i]])
SwapC(v)  == LET i == TLCEval(RandomElement(1..Len(v)))
                 j == TLCEval(RandomElement(1..Len(v))) IN TLCEval([v EXCEPT ![i] = v[j], ![j] = v[i]])
EditCol(v) == IF RandomElement(1..4) = 1 THEN SwapC(v) ELSE Cell(v)
(* within one row, two columns trade values, or one gains what another loses *)
CrossEdit(t) == LET i == TLCEval(RandomElement(1..Len(t.s)))
                    c == TLCEval(RandomElement(1..Len(t.c)))
                    d == TLCEval(RandomElement((1..Len(t.c)) \ {c}))
                    x == t.c[c][i]
                    y == t.c[d][i]
                IN IF x # y /\ RandomElement({1, 2}) = 1 THEN [t EXCEPT !.c[c][i] = y, !.c[d][i] = x]
                   ELSE IF x > 0 THEN [t EXCEPT !.c[c][i] = x - 1, !.c[d][i] = y + 1] ELSE [t EXCEPT !.c[c][i] = x + 1]
EditRec(x) == CASE x.k = "vec" -> [x EXCEPT !.v = EditCol(@)]
                [] x.k = "bag" -> IF RandomElement(1..3) = 1 THEN [x EXCEPT !.s = Flip(@)] ELSE [x EXCEPT !.v = EditCol(@)]
                [] x.k = "tab" -> IF Len(x.c) > 1 /\ RandomElement(1..2) = 1 THEN CrossEdit(x)
                                  ELSE IF RandomElement(1..3) = 1 THEN [x EXCEPT !.s = Flip(@)]
                                  ELSE LET c == TLCEval(RandomElement(1..Len(x.c))) IN [x EXCEPT !.c[c] = EditCol(@)]
EditableArgs(g, a) ==
    CASE g = "multitool" -> {1, 2, 3, 4}
      [] g \in {"final_join", "final_join_adv"} -> {1, 2} \cup (IF g = "final_join_adv" THEN {5, 15} ELSE {})
      [] g = "group_by" -> {1, 2, 3} \cup (IF a[5] # <<>> THEN {5, 15, 25} ELSE {})
      [] g = "cross_product" -> {1, 2, 4}
      [] g \in {"bag_disjoint", "set_disjoint"} -> {1, 2}
      [] g = "set_diff" -> 1..5 [] g = "set_intersect" -> 1..5 [] g = "join_reduction" -> 1..4
      [] g = "bag_disjoint_adv" -> 1..5
      [] OTHER -> 1..Len(a)
EditArgs(g, a) ==
    LET i == TLCEval(RandomElement(EditableArgs(g, a)) % 10) IN
    CASE g = "multitool" ->
           LET j == TLCEval(RandomElement(1..Len(a[i]))) IN
           IF i <= 2 THEN [a EXCEPT ![i][j] = EditRec(@)] ELSE [a EXCEPT ![i][j] = Cell(@)]
      [] g = "final_join_adv" /\ i = 5 -> LET j == TLCEval(RandomElement(1..Len(a[5]))) IN [a EXCEPT ![5][j] = EditCol(@)]
      [] g = "group_by" /\ i = 5 -> LET j == TLCEval(RandomElement(1..Len(a[5]))) IN [a EXCEPT ![5][j].v = EditCol(@)]
      [] g = "cross_product" /\ i = 4 -> [a EXCEPT ![4] = @ + RandomElement({-1, 1})]
      [] OTHER -> [a EXCEPT ![i] = EditRec(@)]

(* --------------------------------------------- writing a run for replay -- *)
VecsOf(q)  == [i \in 1..Len(q) |-> Vec(q[i])]
EVec(v)    == [k |-> "vec", v |-> v, emb |-> TRUE]
Inputs(g, a) ==
    CASE g = "multitool"      -> a[1] \o a[2] \o VecsOf(a[3]) \o VecsOf(a[4])
      [] g = "final_join"     -> <<a[1], a[2]>>
      [] g = "final_join_adv" -> <<a[1], a[2]>> \o [i \in 1..Len(a[5]) |-> EVec(a[5][i])]
      [] g = "group_by"       -> <<a[1], a[2], a[3]>> \o [i \in 1..Len(a[5]) |-> EVec(a[5][i].v)] \o <<a[6]>>
      [] g = "cross_product"  -> <<a[1], a[2]>>
      [] OTHER                -> a
Params(g, a) ==
    CASE g = "multitool"  -> [nf |-> Len(a[1]), ng |-> Len(a[2]), nmf |-> Len(a[3]), nmg |-> Len(a[4])]
      [] g \in {"final_join", "final_join_adv"} -> [ai |-> a[3] - 1, bi |-> a[4] - 1]
      [] g = "group_by"   -> [g |-> <<a[4] - 1>>, aggs |-> [i \in 1..Len(a[5]) |-> [col |-> a[5][i].col - 1, t |-> a[5][i].t]]]
      [] OTHER            -> [x |-> 0]
(* how specification integers may be mapped into the field without changing what
   the gadget says about them *)
Embs(g) == CASE g \in {"multitool", "bag_eq", "bag_sum", "inclusion", "inclusion_adv", "index_transform", "final_join", "final_join_adv"} -> <<"id", "inj">>
             [] g = "no_zeros" -> <<"id", "inj0">>
             [] g \in {"sel_valid", "cross_product"} -> <<"id">>
             [] g = "presc_perm" -> <<"id", "inj">>
             [] OTHER -> <<"id", "scale">>

CrossCols(ta, tb) ==
    LET la == Len(ta.c) la2 == Log2(Len(ta.s)) lb2 == Log2(Len(tb.s)) IN
    [i \in 1..(la + Len(tb.c)) |-> IF i <= la THEN FrontExt(ta.c[i], lb2) ELSE BackExt(tb.c[i - la], la2)]
CrossSel(ta, tb) ==
    LET x == FrontExt(ta.s, Log2(Len(tb.s)))
        y == BackExt(tb.s, Log2(Len(ta.s)))
    IN  [i \in 1..Len(x) |-> x[i] * y[i]]
=============================================================================
