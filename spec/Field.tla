------------------------------- MODULE Field --------------------------------
(* Arithmetic modulo a prime P with P*P < 2^31, multilinear polynomials as   *)
(* rows over the hypercube (index little-endian: the first variable is the   *)
(* low bit) and sums of products of them.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT P

FE == 0..(P - 1)
Fm(x)     == x % P
Fadd(a, b) == (a + b) % P
Fsub(a, b) == (a - b) % P
Fmul(a, b) == (a * b) % P

RECURSIVE Fpow(_, _)
Fpow(a, n) == IF n = 0 THEN 1
              ELSE LET h == Fpow(a, n \div 2) IN
                   IF n % 2 = 0 THEN (h * h) % P ELSE (((h * h) % P) * a) % P
Finv(a)   == Fpow(a, P - 2)

RECURSIVE FsumTo(_, _)
FsumTo(q, n)  == IF n = 0 THEN 0 ELSE (FsumTo(q, n - 1) + q[n]) % P
Fsum(q)   == FsumTo(q, Len(q))
RECURSIVE FprodTo(_, _)
FprodTo(q, n) == IF n = 0 THEN 1 ELSE (FprodTo(q, n - 1) * q[n]) % P
Fprod(q)  == FprodTo(q, Len(q))

MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Pw2(_)
Pw2(n) == IF n = 0 THEN 1 ELSE 2 * Pw2(n - 1)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* the polynomial of degree < Len(e) through (0,e[1]), (1,e[2]), ... at x     *)
RECURSIVE LagBasis(_, _, _, _)
LagBasis(n, i, x, j) ==       \* <<numerator, denominator>> of the i-th basis polynomial over points j..n-1
    IF j = n THEN <<1, 1>>
    ELSE LET r == LagBasis(n, i, x, j + 1) IN
         IF j = i THEN r ELSE <<(r[1] * ((x - j) % P)) % P, (r[2] * ((i - j) % P)) % P>>
Interp(e, x) == LET n == Len(e) IN
    Fsum([k \in 1..n |-> LET b == LagBasis(n, k - 1, x, 0) IN (e[k] * ((b[1] * Finv(b[2])) % P)) % P])

(* fix the first (lowest) variable of a column *)
FixFirst(t, r) == LET u == t IN
    [b \in 1..(Len(u) \div 2) |-> (u[2 * b - 1] + r * ((u[2 * b] - u[2 * b - 1]) % P)) % P]
RECURSIVE FixAll(_, _)
FixAll(t, pt) == IF pt = <<>> THEN t ELSE FixAll(TLCEval(FixFirst(t, Head(pt))), Tail(pt))
MleAt(t, pt)  == FixAll(t, pt)[1]

(* eq(x, r) as a column over x *)
EqAt(x, y)    == Fprod([i \in 1..Len(x) |-> (((x[i] * y[i]) % P) * 2 - x[i] - y[i] + 1) % P])
BitsOf(k, n)  == [i \in 1..n |-> (k \div Pw2(i - 1)) % 2]
EqCol(r)      == [k \in 1..Pw2(Len(r)) |-> EqAt(BitsOf(k - 1, Len(r)), r)]

(* a virtual polynomial: columns and products [c |-> coefficient, p |-> column numbers] *)
VpDeg(pr)     == LET S == {Len(pr[i].p) : i \in 1..Len(pr)} IN
                 IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
VpRow(cs, pr, k) == Fsum([i \in 1..Len(pr) |-> (pr[i].c * Fprod([j \in 1..Len(pr[i].p) |-> cs[pr[i].p[j]][k]])) % P])
VpAt(cs, pr, pt) == LET f == TLCEval([i \in 1..Len(cs) |-> FixAll(cs[i], pt)]) IN VpRow(f, pr, 1)
VpSum(cs, pr) == Fsum([k \in 1..Len(cs[1]) |-> VpRow(cs, pr, k)])

(* the univariate message of the round in which the columns have been fixed to cs *)
MsgAt(cs, pr, x) == LET f == TLCEval([i \in 1..Len(cs) |-> FixFirst(cs[i], x)]) IN
                    Fsum([k \in 1..Len(f[1]) |-> VpRow(f, pr, k)])
Message(cs, pr, deg) == [x \in 1..(deg + 1) |-> MsgAt(cs, pr, x - 1)]
HonestMsg(cols, pr, deg, chals) ==
    LET cs == TLCEval([i \in 1..Len(cols) |-> FixAll(cols[i], chals)]) IN Message(cs, pr, deg)
=============================================================================
