----------------------------- MODULE SumCheckMC ------------------------------
(* shapes for the exhaustive exploration of SumCheck *)
EXTENDS SumCheck
Deg1 == {<<[c |-> 1, p |-> <<1>>]>>, <<[c |-> 2, p |-> <<2>>], [c |-> 1, p |-> <<1>>]>>}
Deg2 == {<<[c |-> 1, p |-> <<1, 2>>]>>, <<[c |-> 2, p |-> <<1, 1>>], [c |-> 1, p |-> <<2>>]>>}
Deg3 == {<<[c |-> 1, p |-> <<1, 2, 1>>]>>, <<[c |-> 2, p |-> <<2, 2, 2>>], [c |-> 4, p |-> <<1>>]>>}
=============================================================================
