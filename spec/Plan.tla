-------------------------------- MODULE Plan --------------------------------
(* Several gadgets in one proof.  A plan commits tables, bags and columns,     *)
(* then runs gadgets on them: on fresh inputs, on inputs (or single columns    *)
(* of input tables) that earlier gadgets used already, and on the tables       *)
(* earlier gadgets returned - join, then cross product, then GROUP BY, then    *)
(* claims about a column of the result.  All claims end up in one compiled     *)
(* proof, which must be accepted exactly when every one of them is true.       *)
(*   Sound     an accepted plan implies the relation of each of its gadgets;   *)
(*   Complete  a plan of true statements is accepted.                          *)
(* A call holds references, so that an edit of one input reaches every gadget  *)
(* that uses it, directly or through a table computed from it.                 *)
EXTENDS Gadgets, Json

CONSTANTS First,       \* the gadgets a plan may begin with
          MaxCalls, MaxEdits, EmitOn

VARIABLES objs, calls, phase, todo, edits,
          dec          \* the decided plan: what each call saw, and which leaf claims hold

vars == <<objs, calls, phase, todo, edits, dec>>

(* --------------------------------------------------- two leaf statements *)
(* "same": the column is the bag's on every active row; "rowsum": the sum of   *)
(* the bag's active values                                                     *)
SameRel(b, v)   == \A i \in Active(b) : b.v[i] = v[i]
RowSumRel(b, k) == SumFn(Times(b.v, b.s)) = k
PRel(g, a)   == CASE g = "same" -> SameRel(a[1], a[2].v) [] g = "rowsum" -> RowSumRel(a[1], a[2])
                  [] g = "cross_product" -> TRUE [] OTHER -> Rel(g, a)
PSubs(g, a, w) == CASE g = "same" -> <<ZERO([i \in 1..Size(a[1]) |-> (a[1].v[i] - a[2].v[i]) * a[1].s[i]])>>
                    [] g = "rowsum" -> <<ZERO(<<SumFn(Times(a[1].v, a[1].s)) - a[2]>>)>>
                    [] g = "cross_product" -> <<>>
                    [] OTHER -> Subs(g, a, w)
PInputs(g, a) == CASE g = "rowsum" -> <<a[1]>> [] g = "cross_product" -> <<a[1], a[2]>> [] g = "same" -> a [] OTHER -> Inputs(g, a)

RECURSIVE Leaves(_)
Leaves(st) == IF st = <<>> THEN <<>>
              ELSE LET c == Head(st) IN
                   IF IsLeaf(c) THEN <<LeafHolds(c)>> \o Leaves(Tail(st))
                   ELSE Leaves(PSubs(c.op, c.a, Honest(c.op, c.a)) \o Tail(st))

(* -------------------------------------------------- arguments by reference *)
In(i)      == [t |-> "in", i |-> i, c |-> 0]
Out(k)     == [t |-> "out", i |-> k, c |-> 0]
InCol(i, c)  == [t |-> "incol", i |-> i, c |-> c]
OutCol(k, c) == [t |-> "outcol", i |-> k, c |-> c]
None0 == [k |-> "none"]

Deref(os, outs, r) ==
    CASE r.t = "in" -> os[r.i] [] r.t = "out" -> outs[r.i]
      [] r.t = "incol" -> Bag(os[r.i].c[r.c], os[r.i].s)
      [] r.t = "outcol" -> Bag(outs[r.i].c[r.c], outs[r.i].s)
(* the gadget's arguments from its input columns and its parameters *)
MkArgs(g, ins, x) ==
    CASE g \in {"final_join"} -> <<ins[1], ins[2], x[1], x[2]>>
      [] g = "final_join_adv" -> <<ins[1], ins[2], x[1], x[2], [i \in 1..(Len(ins) - 2) |-> ins[i + 2].v]>>
      [] g = "group_by" -> <<ins[1], ins[2], ins[3], x[1], [i \in 1..Len(x[2]) |-> [col |-> x[2][i].col, t |-> x[2][i].t, v |-> ins[3 + i].v]], ins[Len(ins)]>>
      [] g = "cross_product" -> <<ins[1], ins[2], 1, 0>>
      [] g = "rowsum" -> <<ins[1], x[1]>>
      [] g = "multitool" -> <<SubSeq(ins, 1, x[1]), SubSeq(ins, x[1] + 1, x[1] + x[2]),
                              [i \in 1..x[1] |-> ins[x[1] + x[2] + i].v], [i \in 1..x[2] |-> ins[2 * x[1] + x[2] + i].v]>>
      [] OTHER -> ins
ParamsOf(g, a) ==
    CASE g \in {"final_join", "final_join_adv"} -> <<a[3], a[4]>>
      [] g = "group_by" -> <<a[4], [i \in 1..Len(a[5]) |-> [col |-> a[5][i].col, t |-> a[5][i].t]]>>
      [] g = "rowsum" -> <<a[2]>>
      [] g = "multitool" -> <<Len(a[1]), Len(a[2])>>
      [] OTHER -> <<>>
OutTab(g, a) ==
    CASE g = "final_join" -> IF JoinPossible(a[1], a[2], a[3], a[4]) THEN Tab(JoinCols(a[1], a[2], a[3], a[4]) \o a[2].c, a[2].s) ELSE None0
      [] g = "final_join_adv" -> Tab(a[5] \o a[2].c, a[2].s)
      [] g = "cross_product" -> Tab(CrossCols(a[1], a[2]), CrossSel(a[1], a[2]))
      [] g = "group_by" -> Tab(<<a[2].v>> \o [i \in 1..Len(a[5]) |-> IF a[5][i].t = "sum" THEN a[5][i].v ELSE a[3].v], a[2].s)
      [] OTHER -> None0
Tabular(g) == g \in {"final_join", "final_join_adv", "cross_product", "group_by"}

ArgsOf(os, outs, c) == MkArgs(c.g, [i \in 1..Len(c.refs) |-> Deref(os, outs, c.refs[i])], c.x)
(* what every call sees and returns; stops at a join that has no result *)
Ran1(os, cs) ==
    LET RECURSIVE R(_, _, _)
        R(k, as, outs) == IF k > Len(cs) THEN [as |-> as, outs |-> outs, ok |-> TRUE]
                          ELSE LET a == ArgsOf(os, outs, cs[k])
                                   o == OutTab(cs[k].g, a)
                               IN IF Tabular(cs[k].g) /\ o.k = "none" THEN [as |-> Append(as, a), outs |-> outs, ok |-> FALSE]
                                  ELSE R(k + 1, Append(as, a), Append(outs, o))
    IN R(1, <<>>, <<>>)

(* ------------------------------------------------- true statements about x *)
Range15 == RangeBag([i \in 1..16 |-> i - 1])
MaxVal(b)  == IF Vals(b) = {} THEN 0 ELSE MaxSet(Vals(b))
RangeFor(m) == IF m <= 3 THEN RandomElement({Range03, Range07}) ELSE IF m <= 7 THEN Range07 ELSE IF m <= 15 THEN Range15
               ELSE RangeBag([i \in 1..Pow2(Log2(m) + 1) |-> i - 1])
BagGads == {"bag_eq", "inclusion", "inclusion_adv", "no_zeros", "supp", "supp_adv", "bag_disjoint", "bag_sum", "set_disjoint",
            "set_union", "join_reduction", "multitool", "same", "rowsum"}
SortGads == {"supp", "supp_adv", "bag_disjoint", "set_disjoint", "set_union", "join_reduction"}
TabGads == {"group_by", "final_join", "index_transform", "cross_product"}
sz(X) == TLCEval(Ceil2(Cardinality(X)) * RandomElement({1, 1, 2}))
GoodOnBag(g, x) ==
    LET n  == Size(x)
        m  == MaxVal(x)
        r  == TLCEval(RangeFor(m))
        mx == Len(r.v) - 1
        n2 == TLCEval(RSize(0))
        b2 == TLCEval(RBag(n2, MinInt(mx, RandV)))
        U  == Vals(x) \cup Vals(b2)
        bb == TLCEval(Bag(b2.v, [i \in 1..n2 |-> IF b2.v[i] \in Vals(x) THEN 0 ELSE b2.s[i]]))
        su == TLCEval(Sorted(Vals(x), sz(Vals(x))))
        jb == TLCEval(JoinB(x, b2, MaxInt(Ceil2(n + n2), Pow2(Log2(n + n2 - 1) + 1))))
    IN
    CASE g = "bag_eq" -> <<x, Reorder(x, n)>>
      [] g = "inclusion" -> <<x, jb>>
      [] g = "inclusion_adv" -> <<x, jb, Vec(FirstMultOn(x, jb))>>
      [] g = "no_zeros" -> <<x>>
      [] g = "supp" -> <<x, su, r>>
      [] g = "supp_adv" -> <<x, su, Vec(MultOn(x, su)), r>>
      [] g = "bag_disjoint" -> <<x, bb, r>>
      [] g = "set_disjoint" -> <<x, bb, r>>
      [] g = "bag_sum" -> <<x, b2, Reorder(jb, Len(jb.v))>>
      [] g = "set_union" -> LET V == TLCEval(U) IN <<x, b2, Sorted(V, sz(V)), r>>
      [] g = "join_reduction" ->
           <<x, b2, Vec([i \in 1..n |-> IF x.s[i] = 0 THEN RandomElement({0, 1}) ELSE IF x.v[i] \in Vals(b2) THEN 0 ELSE 1]),
             Vec([i \in 1..n2 |-> IF b2.s[i] = 0 THEN RandomElement({0, 1}) ELSE IF b2.v[i] \in Vals(x) THEN 0 ELSE 1]), r>>
      [] g = "multitool" -> LET c == TLCEval(Reorder(x, n)) IN <<<<x, b2>>, <<c, b2>>, <<Ones(n), RV(n2, {1})>>, <<Ones(n), Ones(n2)>>>>
      [] g = "same" -> <<x, Vec([i \in 1..n |-> IF x.s[i] = 0 THEN RandomElement(0..3) ELSE x.v[i]])>>
      [] g = "rowsum" -> <<x, SumFn(Times(x.v, x.s)) + RandomElement({0, 0, 0, 0, 0, 0, 1})>>
GoodOnTab(g, t) ==
    LET n == Size(t)
        k == Len(t.c)
    IN
    CASE g = "group_by" ->
           LET gc == TLCEval(RandomElement(1..k))
               gb == Bag(t.c[gc], t.s)
               u == TLCEval(Sorted(Vals(gb), n))
               agg(col) == [j \in 1..n |-> IF u.s[j] = 0 THEN RandomElement({0, 0, 3})
                              ELSE SumFn([i \in 1..n |-> IF t.s[i] # 0 /\ t.c[gc][i] = u.v[j] THEN t.c[col][i] ELSE 0])]
               na == TLCEval(RandomElement(0..2))
               one(col, ty) == [col |-> col, t |-> ty, v |-> IF ty = "sum" THEN TLCEval(agg(col)) ELSE RV(n, 0..1)]
               aggs == TLCEval([j \in 1..na |-> one(RandomElement(1..k), RandomElement({"sum", "sum", "count"}))])
           IN <<t, u, Vec(MultOn(gb, u)), gc, aggs, RangeFor(MaxVal(gb))>>
      [] g = "final_join" ->       \* t is the many side: a table with every key once
           LET bi == TLCEval(RandomElement(1..k))
               K  == TLCEval(SetToSortedSeq({t.c[bi][i] : i \in Active(t)}))
               n1 == MaxInt(2, Pow2(IF Len(K) <= 1 THEN 1 ELSE Log2(Len(K) - 1) + 1))
               ka == TLCEval(RandomElement(1..2))
               ai == TLCEval(RandomElement(1..ka))
               p  == Shuffle(n1)
               ta == TLCEval(Tab([c \in 1..ka |-> IF c = ai THEN [i \in 1..n1 |-> IF p[i] <= Len(K) THEN K[p[i]] ELSE 100 + i] ELSE RV(n1, 0..3)],
                                 [i \in 1..n1 |-> IF p[i] <= Len(K) THEN 1 ELSE RandomElement({0, 1})]))
           IN <<ta, t, ai, bi>>
      [] g = "index_transform" ->
           LET n2 == TLCEval(RSize(0))
               ix == TLCEval([i \in 1..n2 |-> RandomElement(IF Active(t) = {} THEN 1..n ELSE Active(t))])
               s2 == IF Active(t) = {} THEN Fill(n2, 0) ELSE RSel(n2)
           IN <<t, Tab([c \in 1..k |-> [i \in 1..n2 |-> IF s2[i] = 1 THEN t.c[c][ix[i]] ELSE RandomElement(0..2)]], s2)>>
      [] g = "cross_product" -> <<t, Tab([c \in 1..TLCEval(RandomElement({1, 2})) |-> RV(2, 0..3)], RSel(2)), 1, 0>>

(* ------------------------------------------------------------ building it *)
Init == objs = <<>> /\ calls = <<>> /\ phase = "build" /\ todo = 0 /\ edits = 0 /\ dec = <<>>

(* a reference to x: an input that is there already, or a new one *)
Find(os, x) == {i \in 1..Len(os) : os[i] = x}
Fresh(os, xs, known) ==
    \* known: references for the first arguments (<<>> if none); fold the rest into os
    LET RECURSIVE G(_, _, _)
        G(k, o, rs) == IF k > Len(xs) THEN [os |-> o, refs |-> rs]
                       ELSE IF k <= Len(known) /\ known[k].t # "new" THEN G(k + 1, o, Append(rs, known[k]))
                       ELSE LET f == Find(o, xs[k]) IN
                            IF f # {} THEN G(k + 1, o, Append(rs, In(MinSet(f))))
                            ELSE G(k + 1, Append(o, xs[k]), Append(rs, In(Len(o) + 1)))
    IN G(1, os, <<>>)
New == [t |-> "new", i |-> 0, c |-> 0]

AddCall(g, a, known) ==
    LET f == Fresh(objs, PInputs(g, a), known) IN
    /\ objs' = f.os
    /\ calls' = Append(calls, [g |-> g, refs |-> f.refs, x |-> ParamsOf(g, a)])

Start ==
    /\ phase = "build" /\ calls = <<>>
    /\ \E g \in {RandomElement(First)} : \E a \in {TLCEval(Good(g))} : AddCall(g, a, <<>>)
    /\ todo' = RandomElement(1..(MaxCalls - 1)) /\ edits' = RandomElement(0..MaxEdits) /\ UNCHANGED <<phase, dec>>

Tables(outs) == {In(i) : i \in {j \in 1..Len(objs) : objs[j].k = "tab"}} \cup {Out(k) : k \in {j \in 1..Len(outs) : outs[j].k = "tab"}}
Cols1(outs) == UNION ({{InCol(i, c) : c \in 1..Len(objs[i].c)} : i \in {j \in 1..Len(objs) : objs[j].k = "tab"}}
                      \cup {{OutCol(k, c) : c \in 1..Len(outs[k].c)} : k \in {j \in 1..Len(outs) : outs[j].k = "tab"}})
Later(outs) == {OutCol(k, c) : k \in {j \in 1..Len(outs) : outs[j].k = "tab"}, c \in 1..1}
BagsIn == {In(i) : i \in {j \in 1..Len(objs) : objs[j].k = "bag" /\ Boolean01(objs[j].s)}}
Small(x) == \A i \in Active(x) : x.v[i] >= 0 /\ x.v[i] <= 127

More ==
    /\ phase = "build" /\ calls # <<>> /\ todo > 0
    /\ \E r \in {TLCEval(Ran1(objs, calls))} :
       \E kind \in {RandomElement({"bag", "bag", "bagin", "tab", "fresh", "table"})} :
         IF ~r.ok THEN UNCHANGED <<objs, calls>>
         ELSE IF kind = "fresh" \/ (Cols1(r.outs) = {} /\ kind \in {"bag", "tab", "table"}) \/ (BagsIn = {} /\ kind = "bagin")
         THEN \E g \in {RandomElement(BagGads \ {"same", "rowsum"})} : \E a \in {TLCEval(Good(g))} : AddCall(g, a, <<>>)
         ELSE IF kind \in {"bag", "bagin"}
         THEN \E ref \in {RandomElement(IF kind = "bagin" THEN BagsIn ELSE IF Later(r.outs) # {} /\ RandomElement({1, 2}) = 1
                                        THEN {q \in Cols1(r.outs) : q.t = "outcol"} ELSE Cols1(r.outs))} :
              \E x \in {Deref(objs, r.outs, ref)} :
              \E g \in {RandomElement(IF Small(x) THEN BagGads ELSE BagGads \ SortGads)} :
              \E a \in {TLCEval(GoodOnBag(g, x))} : AddCall(g, a, <<ref>>)
         ELSE \E ref \in {RandomElement(IF Later(r.outs) # {} /\ kind = "table" THEN {q \in Tables(r.outs) : q.t = "out"} ELSE Tables(r.outs))} :
              \E x \in {Deref(objs, r.outs, ref)} :
              \E g \in {RandomElement((TabGads \ (IF Size(x) > 16 THEN {"cross_product"} ELSE {}))
                                              \ (IF \E c \in 1..Len(x.c) : ~Small(Bag(x.c[c], x.s)) THEN {"group_by"} ELSE {}))} :
              \E a \in {TLCEval(GoodOnTab(g, x))} :
                AddCall(g, a, IF g = "final_join" THEN <<New, ref>> ELSE <<ref>>)
    /\ todo' = todo - 1 /\ UNCHANGED <<phase, edits, dec>>

Edit ==
    /\ phase = "build" /\ calls # <<>> /\ todo = 0 /\ edits > 0
    /\ \E i \in {RandomElement(1..Len(objs))} :
         \* a range column stays what it is
         IF objs[i].k = "bag" /\ objs[i] = RangeBag([j \in 1..Len(objs[i].v) |-> j - 1]) THEN UNCHANGED objs
         ELSE \E x \in {TLCEval(EditRec(objs[i]))} : objs' = [objs EXCEPT ![i] = x]
    /\ edits' = edits - 1 /\ UNCHANGED <<calls, phase, todo, dec>>

(* ---------------------------------------------------------------- deciding *)
CallLeaves(k, r) == Leaves(<<Call(calls[k].g, r.as[k])>>)
Usable(k, r) == LET g == calls[k].g IN
    /\ g \in {"final_join", "final_join_adv"} => KeyUnique(r.as[k][1], r.as[k][3])
    /\ \A i \in 1..Len(PInputs(g, r.as[k])) : LET o == PInputs(g, r.as[k])[i] IN o.k # "vec" => Boolean01(o.s)
    /\ g \notin {"same", "rowsum", "cross_product"} => RangeSane(g, r.as[k])

(* outputs and helper steps, as the harness wants them: position of everything a step pushes *)
HSteps(r) ==
    LET base == Len(objs)
        RECURSIVE W(_, _, _, _)
        \* k: call; pos: next free position; at: where each call's table is
        W(k, pos, at, st) ==
            IF k > Len(r.as) THEN [st |-> st, at |-> at]
            ELSE LET g == calls[k].g
                     a == r.as[k]
                     rs == calls[k].refs
                     \* make the bags first: three pushes each
                     RECURSIVE B(_, _, _, _)
                     B(i, p, s, idx) ==
                        IF i > Len(rs) THEN [p |-> p, s |-> s, idx |-> idx]
                        ELSE LET q == rs[i] IN
                             IF q.t = "in" THEN B(i + 1, p, s, Append(idx, q.i - 1))
                             ELSE IF q.t = "out" THEN B(i + 1, p, s, Append(idx, at[q.i]))
                             ELSE LET src == IF q.t = "incol" THEN q.i - 1 ELSE at[q.i] IN
                                  B(i + 1, p + 3, s \o << [op |-> "tabcol", args |-> <<src>>, p |-> [i |-> q.c - 1]],
                                                          [op |-> "tabsel", args |-> <<src>>, p |-> [x |-> 0]],
                                                          [op |-> "mkbag", args |-> <<p, p + 1>>, p |-> [x |-> 0]] >>,
                                    Append(idx, p + 2))
                     b == B(1, pos, <<>>, <<>>)
                     x == b.idx
                     p == b.p
                     own == CASE g = "same" -> << [op |-> "bagval", args |-> <<x[1]>>, p |-> [x |-> 0]],
                                                  [op |-> "sub", args |-> <<p, x[2]>>, p |-> [x |-> 0]],
                                                  [op |-> "bagsel", args |-> <<x[1]>>, p |-> [x |-> 0]],
                                                  [op |-> "mul", args |-> <<p + 1, p + 2>>, p |-> [x |-> 0]],
                                                  [op |-> "zero", args |-> <<p + 3>>, p |-> [x |-> 0]] >>
                              [] g = "rowsum" -> << [op |-> "bagval", args |-> <<x[1]>>, p |-> [x |-> 0]],
                                                    [op |-> "bagsel", args |-> <<x[1]>>, p |-> [x |-> 0]],
                                                    [op |-> "mul", args |-> <<p, p + 1>>, p |-> [x |-> 0]],
                                                    [op |-> "sum", args |-> <<p + 2>>, p |-> [c |-> a[2]]] >>
                              [] OTHER -> << [op |-> g, args |-> x, p |-> Params(g, a)] >>
                     used == CASE g = "same" -> 4 [] g = "rowsum" -> 3 [] OTHER -> IF Tabular(g) THEN 1 ELSE 0
                 IN W(k + 1, p + used, Append(at, IF Tabular(g) THEN p ELSE 0), st \o b.s \o own)
    IN W(1, base, <<>>, <<>>)
POuts(r, at) ==
    LET RECURSIVE Q(_)
        Q(k) == IF k = 0 THEN <<>>
                ELSE Q(k - 1) \o (IF r.outs[k].k = "tab" THEN << [at |-> at[k], c |-> r.outs[k].c, s |-> r.outs[k].s, noemb |-> <<>>] >> ELSE <<>>)
    IN Q(Len(r.outs))

Verdict1(r, all) ==
    IF \A i \in 1..Len(all) : all[i] THEN "accept"
    ELSE IF \E k \in 1..Len(r.as) : ~PRel(calls[k].g, r.as[k]) THEN "reject" ELSE "any"
AllLeaves(r) == LET RECURSIVE A(_)
                    A(k) == IF k = 0 THEN <<>> ELSE A(k - 1) \o CallLeaves(k, r)
                IN A(Len(r.as))
FailsOf(all) == SelectSeq([i \in 1..Len(all) |-> IF all[i] THEN 0 ELSE i], LAMBDA x : x # 0)

Decide ==
    /\ phase = "build" /\ calls # <<>> /\ todo = 0 /\ edits = 0
    /\ \E r \in {TLCEval(Ran1(objs, calls))} :
       \E us \in {\A k \in 1..Len(r.as) : Usable(k, r)} :
       \E all \in {IF us THEN TLCEval(AllLeaves(r)) ELSE <<>>} :
         /\ dec' = [r |-> r, usable |-> us, holds |-> \A i \in 1..Len(all) : all[i]]
         /\ (EmitOn /\ us) => \E h \in {TLCEval(HSteps(r))} :
            PrintT("CASE " \o ToJson([in |-> objs, steps |-> h.st, outs |-> IF r.ok THEN POuts(r, h.at) ELSE <<>>,
                       expect |-> Verdict1(r, all), embs |-> <<"id">>, fails |-> FailsOf(all),
                       g |-> [k \in 1..Len(calls) |-> calls[k].g]]))
    /\ phase' = "done" /\ UNCHANGED <<objs, calls, todo, edits>>
Again == phase = "done" /\ phase' = "build" /\ objs' = <<>> /\ calls' = <<>> /\ todo' = 0 /\ edits' = 0 /\ dec' = <<>>

Next == Start \/ More \/ Edit \/ Decide \/ Again
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Ready == phase = "done" /\ dec.usable
Good1(k, r) == LET g == calls[k].g IN
    (g \in {"same", "rowsum", "cross_product"} \/ RangeCovers(g, r.as[k]))
Sound == (Ready /\ dec.holds) => \A k \in 1..Len(dec.r.as) : PRel(calls[k].g, dec.r.as[k])
Complete == (Ready /\ dec.r.ok /\ \A k \in 1..Len(dec.r.as) : Good1(k, dec.r) /\ PRel(calls[k].g, dec.r.as[k])) => dec.holds
=============================================================================
