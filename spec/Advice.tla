-------------------------------- MODULE Advice -------------------------------
(* What each advice helper must return, as predicates on its inputs and        *)
(* outputs; the inputs it is tried on; and the check of recorded outputs.       *)
EXTENDS Vecs, Json, IOUtils

CONSTANTS Mode,              \* "all": small bags exhaustively; "random"; anything else: judge the records in File
          File

VARIABLES n, i, done

(* ------------------------------------------------------------------- inputs *)
RV(k, S)  == TLCEval([j \in 1..k |-> RandomElement(S)])
BagsOf(k, S) == {Bag(v, s) : v \in [1..k -> S], s \in [1..k -> {0, 1}]}
Small == {<<x, y>> : x \in BagsOf(2, 0..2), y \in BagsOf(2, 0..2)} \cup {<<x, y>> : x \in BagsOf(4, 0..1), y \in BagsOf(2, {0, 2})}
         \cup {<<x, y>> : x \in BagsOf(2, {0, 2}), y \in BagsOf(4, 0..1)}
BagsCase(p) == [k |-> "bags", e |-> 0, a |-> p[1], b |-> p[2]]

Dom(z_) == LET w == RandomElement(1..4) IN
           CASE w = 1 -> 0..1 [] w = 2 -> 0..4 [] w = 3 -> (-2)..9 [] OTHER -> 1..40
Sel(k) == LET w == RandomElement(1..5) IN
          CASE w = 1 -> Fill(k, 1) [] w = 2 -> RV(k, {0, 0, 0, 1}) [] w = 3 -> Fill(k, 0) [] OTHER -> RV(k, {0, 1, 2} \ {2})
RBag(k) == LET d == TLCEval(Dom(0)) IN
           IF RandomElement(1..3) = 1            \* a set: no active value twice
           THEN LET v == RV(k, d)  s == TLCEval(Sel(k)) IN
                TLCEval(Bag(v, [j \in 1..k |-> IF \E h \in 1..(j - 1) : v[h] = v[j] THEN 0 ELSE s[j]]))
           ELSE TLCEval(Bag(RV(k, d), Sel(k)))
RSize(z_) == RandomElement({1, 2, 2, 4, 4, 8, 8, 16, 32, 64})
(* hundreds of rows of one value: counts beyond a byte *)
Huge(z_) == LET k == RandomElement({256, 512})  v == RandomElement(0..3)  hole == RandomElement(0..3) IN
            TLCEval(Bag(Fill(k, v), [j \in 1..k |-> IF j <= hole THEN 0 ELSE 1]))
RndBags(z_) == LET h == RandomElement(1..60)
                   x == IF h <= 2 THEN TLCEval(Huge(0)) ELSE TLCEval(RBag(RSize(0)))
                   y == IF h \in {2, 3} THEN TLCEval(Huge(0)) ELSE TLCEval(RBag(RSize(0)))
                   \* often: the second is made from values of the first
                   w == RandomElement(1..3)
                   k == Len(y.v)
                   y2 == IF w = 1 THEN TLCEval(Bag([j \in 1..k |-> x.v[RandomElement(1..Len(x.v))]], y.s)) ELSE y
               IN [k |-> "bags", e |-> RandomElement(0..1), a |-> x, b |-> y2]
RndTabs(z_) == LET ka == RandomElement(1..3)  kb == RandomElement(1..3)
                   ai == RandomElement(1..ka) bi == RandomElement(1..kb)
                   na == RSize(0)  nb == RSize(0)
                   sa == TLCEval(Sel(na))  sb == TLCEval(Sel(nb))
                   \* distinct keys where active, anything elsewhere
                   key == TLCEval([j \in 1..na |-> IF sa[j] = 1 THEN (j * 7) % 41 ELSE RandomElement(0..40)])
                   act == {j \in 1..na : sa[j] = 1}
                   stray == RandomElement(1..6) = 1
                   fk == TLCEval([j \in 1..nb |-> IF act = {} \/ (sb[j] = 0 /\ RandomElement(1..2) = 1) \/ (stray /\ RandomElement(1..4) = 1)
                                                  THEN RandomElement(0..40) ELSE key[RandomElement(act)]])
                   fill == TLCEval([c \in 1..6 |-> RV(IF c <= 3 THEN na ELSE nb, 0..9)])
               IN [k |-> "tabs", e |-> RandomElement(0..1), ai |-> ai, bi |-> bi,
                   a |-> Tab([c \in 1..ka |-> IF c = ai THEN key ELSE fill[c]], sa),
                   b |-> Tab([c \in 1..kb |-> IF c = bi THEN fk ELSE fill[3 + c]], sb)]

Init == n = 0 /\ i = 0 /\ done = FALSE
Next == /\ Mode \in {"all", "random"} /\ UNCHANGED <<i, done>>
        /\ IF Mode = "all" THEN n = 0 /\ \E p \in Small : PrintT("CASE " \o ToJson(BagsCase(p))) /\ n' = 1
           ELSE /\ n < 20 /\ n' = n + 1
                /\ \E k \in {IF n >= 0 THEN RandomElement(1..3) ELSE 0} :
                   \E c \in {TLCEval(IF k = 1 THEN RndTabs(0) ELSE RndBags(0))} : PrintT("CASE " \o ToJson(c))
Spec == Init /\ [][Next]_<<n, i, done>>

(* ------------------------------------------------------------ the predicates *)
(* the field's own order: negative numbers come last *)
Key(x)      == IF x >= 0 THEN x ELSE x + 1000000
Increasing(b) == LET q == ActiveSeq(b) IN \A j \in 1..(Len(q) - 1) : Key(q[j]) < Key(q[j + 1])
IsBag(b)    == Boolean01(b.s) /\ Len(b.v) = Len(b.s)
Only(x, y, v) == IF v \in Vals(y) THEN 0 ELSE Mult(x, v)
Both(x, y, v) == IF v \in Vals(y) THEN Mult(x, v) ELSE 0

IsMap(b, m) == /\ \A v \in Vals(b) : \E e \in Ran(m) : e[1] = v /\ e[2] = Mult(b, v)
               /\ \A e \in Ran(m) : e[2] = Mult(b, e[1])
               /\ \A j, h \in 1..Len(m) : m[j][1] = m[h][1] => j = h
(* every active value of b, and none else, carries its multiplicity in x *)
Weighs(b, m, x, S) == Len(m) = Len(b.s) /\ \A v \in S : Weight(b, m, v) = Mult(x, v)

Good(r) ==
  LET a == r.a  b == r.b  o == r.out  V == Vals(a) \cup Vals(b) IN
  CASE r.what \in {"count_bag", "count_mle", "count_vec"} -> IsMap(a, o.m)
    [] r.what = "split" ->
         /\ IsBag(o.l) /\ IsBag(o.ma) /\ IsBag(o.mb) /\ IsBag(o.r)
         /\ \A v \in V \cup Vals(o.l) \cup Vals(o.ma) \cup Vals(o.mb) \cup Vals(o.r) :
               /\ Mult(o.l, v) = Only(a, b, v)  /\ Mult(o.ma, v) = Both(a, b, v)
               /\ Mult(o.r, v) = Only(b, a, v)  /\ Mult(o.mb, v) = Both(b, a, v)
    [] r.what = "split_set" ->
         /\ IsBag(o.l) /\ IsBag(o.m) /\ IsBag(o.r)
         /\ \A v \in V \cup Vals(o.l) \cup Vals(o.m) \cup Vals(o.r) :
               /\ Mult(o.l, v) = Only(a, b, v)  /\ Mult(o.r, v) = Only(b, a, v)
               /\ Mult(o.m, v) = Both(a, b, v)
    [] r.what \in {"inclusion", "inclusion_mle"} -> Weighs(b, o.m, a, Vals(b))
    [] r.what = "disjoint" -> IsBag(o.c) /\ Vals(o.c) = V /\ Increasing(o.c) /\ Weighs(o.c, o.ma, a, V) /\ Weighs(o.c, o.mb, b, V)
    [] r.what = "supp" -> IsBag(o.c) /\ Vals(o.c) = Vals(a) /\ Increasing(o.c) /\ Weighs(o.c, o.m, a, Vals(a))
    [] r.what = "markers" ->
         /\ Boolean01(o.l) /\ Boolean01(o.r) /\ Len(o.l) = Len(a.s) /\ Len(o.r) = Len(b.s)
         /\ \A j \in Active(a) : o.l[j] = (IF a.v[j] \in Vals(b) THEN 0 ELSE 1)
         /\ \A j \in Active(b) : o.r[j] = (IF b.v[j] \in Vals(a) THEN 0 ELSE 1)
    [] r.what = "rows" ->
         LET ka == a.c[r.ai]  kb == b.c[r.bi]
             possible == \A j \in Active(b) : \E h \in Active(a) : ka[h] = kb[j]
         IN IF ~o.ok THEN ~possible
            ELSE /\ possible /\ Len(o.ix) = Len(b.s)
                 /\ \A j \in 1..Len(o.ix) : o.ix[j] + 1 \in 1..Len(a.s)
                 /\ \A j \in Active(b) : a.s[o.ix[j] + 1] = 1 /\ ka[o.ix[j] + 1] = kb[j]
    [] r.what = "joined" ->
         /\ Len(o.cols) = Len(a.c)
         /\ \A c \in 1..Len(a.c) : Len(o.cols[c]) = Len(b.s) /\ \A j \in Active(b) : o.cols[c][j] = a.c[c][r.ix[j] + 1]
    [] OTHER -> FALSE

(* -------------------------------------------------------- judging the records *)
T == ndJsonDeserialize(File)
TInit == n = 0 /\ i \in 1..Len(T) /\ done = FALSE
TNext == /\ ~done
         /\ (IF Good(T[i]) THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, what |-> "helper " \o T[i].what \o " returns what its equations forbid"])))
         /\ PrintT("DONE " \o ToJson(i))
         /\ done' = TRUE /\ UNCHANGED <<n, i>>
TSpec == TInit /\ [][TNext]_<<n, i, done>>
=============================================================================
