--------------------------- MODULE PolyArithTrace ----------------------------
(* Random instances made by the real code: what it says about them must be     *)
(* true by definition.                                                          *)
EXTENDS Field, Json, IOUtils
CONSTANT File
T == ndJsonDeserialize(File)
VARIABLES i, done
R == T[i]
TInit == i \in 1..Len(T) /\ done = FALSE
Row(r, k) == VpRow(r.cols, r.prods, k)
Shape(r) == \A j \in 1..Len(r.cols) : Len(r.cols[j]) = Pw2(r.nv)
SeqOk(r) == r.prods # <<>> /\ \A j \in 1..Len(r.prods) : Len(r.prods[j].p) \in r.lo..(r.hi - 1)
Perm(r) == LET c == r.cols[1]  n == r.k * Pw2(r.nv) IN Len(c) = n /\ {c[k] : k \in 1..n} = 0..(n - 1)
Sound(r) == CASE r.what = "mles"   -> Shape(r) /\ Len(r.cols) = r.hi /\ r.sum = VpSum(r.cols, r.prods)
              [] r.what = "zeros"  -> Shape(r) /\ Len(r.cols) = r.hi /\ \A k \in 1..Pw2(r.nv) : Row(r, k) = 0
              [] r.what = "vp"     -> Shape(r) /\ SeqOk(r) /\ Len(r.prods) = r.k /\ r.deg >= VpDeg(r.prods) /\ r.sum = VpSum(r.cols, r.prods)
              [] r.what = "vpzero" -> Shape(r) /\ SeqOk(r) /\ Len(r.prods) = r.k /\ r.deg >= VpDeg(r.prods) /\ \A k \in 1..Pw2(r.nv) : Row(r, k) = 0
              [] OTHER -> Perm(r)
TNext == /\ ~done
         /\ (IF Sound(R) THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, what |-> "random instance (" \o R.what \o ") is not what it claims to be"])))
         /\ PrintT("DONE " \o ToJson(i))
         /\ done' = TRUE /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_<<i, done>>
=============================================================================
