------------------------------- MODULE KzgMC --------------------------------
(* every polynomial, point, claimed value and proof over a tiny field          *)
EXTENDS Kzg
CONSTANTS N, Sample
VARIABLES f, z, v, q, z2
vars == <<f, z, v, q, z2>>
Col(n) == [1..Pw2(n) -> FE]
SeqOf(n) == [1..n -> FE]
Pick(S, k) == IF Sample = 0 THEN S ELSE {RandomElement(S) : i \in 1..k}
QSet == IF N = 1 THEN {<<a>> : a \in Col(1)} ELSE {<<a, b>> : a \in Pick(Col(1), Sample) \cup Pick(Col(2), Sample), b \in Pick(Col(0), 3) \cup Pick(Col(1), Sample)}
Init == /\ f \in Pick(Col(N), Sample) /\ z \in SeqOf(N) /\ v \in FE
        /\ q \in QSet \cup {Open(f, z)}
        /\ z2 \in {z}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Complete == Verify(f, z, MleAt(f, z), Open(f, z))
Binding  == Verify(f, z, v, q) => v = MleAt(f, z)
Unique   == (Verify(f, z, v, q)) =>
              \A i \in 1..N : \A w \in {Open(f, z)[i], [k \in 1..Len(q[i]) |-> Fadd(q[i][k], 1)]} :
                 SameComm(w, q[i]) \/ ~Verify(f, z, v, [q EXCEPT ![i] = w])
=============================================================================
