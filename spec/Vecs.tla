-------------------------------- MODULE Vecs --------------------------------
(* Columns, bags, tables and the multiset algebra every zksql gadget talks  *)
(* about.  A column is a sequence of 2^nv integers (the evaluations over    *)
(* the boolean hypercube, index little-endian), a bag is a column with a    *)
(* selector column, a table is several columns with one selector.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

Vec(v)    == [k |-> "vec", v |-> v]
Bag(v, s) == [k |-> "bag", v |-> v, s |-> s]
Tab(c, s) == [k |-> "tab", c |-> c, s |-> s]

SumFn(f)     == LET RECURSIVE S(_)
                    S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1)
                IN  S(Len(f))
MaxInt(a, b) == IF a > b THEN a ELSE b
MinInt(a, b) == IF a < b THEN a ELSE b
Ran(s)       == {s[i] : i \in 1..Len(s)}
Fill(n, x)   == [i \in 1..n |-> x]
Ones(n)      == Fill(n, 1)
RECURSIVE Pow2(_)
Pow2(n)      == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Log2(_)
Log2(n)      == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
MaxSet(S)    == LET q == SetToSortSeq(S, <) IN q[Len(q)]
MinSet(S)    == SetToSortSeq(S, <)[1]

SetToSortedSeq(S) == SetToSortSeq(S, <)

Size(b)      == Len(b.s)
Active(b)    == {i \in 1..Len(b.s) : b.s[i] # 0}
Vals(b)      == {b.v[i] : i \in Active(b)}                  \* the support
Boolean01(s) == \A i \in 1..Len(s) : s[i] \in {0, 1}

(* how often x occurs among the rows the selector switches on              *)
Mult(b, x)   == Cardinality({i \in Active(b) : b.v[i] = x})
(* the weight the lookup argument gives to x: sum of selector * multiplicity *)
Weight(b, m, x) == SumFn([i \in 1..Len(b.v) |-> IF b.v[i] = x THEN b.s[i] * m[i] ELSE 0])

DupFree(b)   == \A i, j \in Active(b) : b.v[i] = b.v[j] => i = j
Disjoint(a, b) == Vals(a) \cap Vals(b) = {}
BagEqual(a, b) == \A x \in Vals(a) \cup Vals(b) : Mult(a, x) = Mult(b, x)
(* the active values in row order *)
ActiveSeq(b) == LET RECURSIVE G(_)
                    G(i) == IF i > Len(b.v) THEN <<>>
                            ELSE (IF b.s[i] # 0 THEN <<b.v[i]>> ELSE <<>>) \o G(i + 1)
                IN G(1)
StrictlyIncreasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]

(* rows of a table, as tuples, and the bag of its rows *)
Row(t, i)    == [c \in 1..Len(t.c) |-> t.c[c][i]]
Rowed(v, s)  == [k |-> "rows", v |-> v, s |-> s]            \* a bag of tuples
RowBag(t)    == Rowed([i \in 1..Len(t.s) |-> Row(t, i)], t.s)
Rows(t)      == {Row(t, i) : i \in Active(t)}

(* stable sort of 1..n by an integer key *)
SortIdx(key) == SortSeq([i \in 1..Len(key) |-> i], LAMBDA x, y : key[x] < key[y] \/ (key[x] = key[y] /\ x < y))

(* a column over more variables that ignores the added ones                 *)
FrontExt(v, n) == [i \in 1..(Len(v) * Pow2(n)) |-> v[((i - 1) \div Pow2(n)) + 1]]
BackExt(v, n)  == [i \in 1..(Len(v) * Pow2(n)) |-> v[((i - 1) % Len(v)) + 1]]
=============================================================================
