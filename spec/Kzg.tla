-------------------------------- MODULE Kzg ---------------------------------
(* Multilinear KZG, as an algebraic (generic-group) adversary sees it: a      *)
(* commitment is the polynomial in the exponent, an opening proof is one      *)
(* polynomial per variable, and verification is a polynomial identity in the  *)
(* secret point:   C(t) - v = sum_i (t_i - z_i) * q_i(t).                     *)
(* Both sides have degree at most two in every t_i, so the identity is        *)
(* decided on the grid {0,1,2}^n.                                             *)
(*   Complete   honest openings of the true value verify                      *)
(*   Binding    whatever verifies is the value of the committed polynomial    *)
(*   Unique     changing one quotient of a verifying proof breaks it          *)
EXTENDS Field

(* a polynomial in the first-variables-ignored normal form: the commitment to *)
(* n variables uses the last n of the secrets, so a polynomial that ignores   *)
(* its first variables is the same commitment as the shorter one              *)
RECURSIVE Norm(_)
Norm(f) == IF Len(f) = 1 THEN f
           ELSE IF \A k \in 1..(Len(f) \div 2) : f[2 * k - 1] = f[2 * k]
                THEN Norm([k \in 1..(Len(f) \div 2) |-> f[2 * k]]) ELSE f
SameComm(f, g) == Norm(f) = Norm(g)

(* value of f, read as a polynomial in the last variables of x *)
At(f, x) == MleAt(f, SubSeq(x, Len(x) - Log2(Len(f)) + 1, Len(x)))

RECURSIVE Open(_, _)
Open(f, z) == IF z = <<>> THEN <<>>
              ELSE <<[k \in 1..(Len(f) \div 2) |-> Fsub(f[2 * k], f[2 * k - 1])]>>
                   \o Open(TLCEval(FixFirst(f, Head(z))), Tail(z))

RECURSIVE Grid(_)
Grid(n) == IF n = 0 THEN {<<>>} ELSE {<<x>> \o g : x \in {0, 1, 2}, g \in Grid(n - 1)}

(* C, the q_i: columns with at most Len(z) variables *)
Verify(C, z, v, q) ==
  LET n == Len(z)  c == Norm(C) IN
  /\ Len(q) = n
  /\ Log2(Len(c)) <= n     \* otherwise it equals no polynomial in n of its variables
  /\ \A x \in Grid(n) :
       Fsub(At(c, x), v) = Fsum([i \in 1..n |-> Fmul(Fsub(x[i], z[i]), At(q[i], x))])
=============================================================================
