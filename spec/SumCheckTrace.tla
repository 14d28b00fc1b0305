---------------------------- MODULE SumCheckTrace ----------------------------
(* Runs recorded from the real prover and verifier, checked against SumCheck:  *)
(* every recorded run has to be a behaviour of it, event by event.             *)
EXTENDS SumCheck, Json, IOUtils

CONSTANT File

T == ndJsonDeserialize(File)

VARIABLES i, zc, done
tvars == <<cols, prods, claim, msgs, chals, phase, honest, i, zc, done>>

R == T[i]
Seq1(x) == IF DOMAIN x = {} THEN <<>> ELSE x
IsZc(r) == r.kind = "zc"

TInit == /\ i \in 1..Len(T)
         /\ zc = IsZc(T[i])
         /\ cols = IF IsZc(T[i]) THEN Append(T[i].cols, EqCol(T[i].r)) ELSE T[i].cols
         /\ prods = IF IsZc(T[i])
                    THEN [j \in 1..Len(T[i].prods) |-> [c |-> T[i].prods[j].c, p |-> Append(T[i].prods[j].p, Len(T[i].cols) + 1)]]
                    ELSE T[i].prods
         /\ claim = IF IsZc(T[i]) THEN 0 ELSE T[i].claim
         /\ Start
         /\ done = FALSE

Bad(what) == PrintT("BAD " \o ToJson([i |-> i, what |-> what]))

Take(ok, what) == IF ok THEN TRUE ELSE Bad(what)

(* what the prover produced in this round must be the honest message for the challenges so far *)
TSend == /\ ~done /\ phase = "prover"
         /\ Take(Round <= Len(R.made) /\ R.made[Round] = Truth, "round message is not the partial sums of the polynomial")
         /\ IF Round <= Len(R.sent) THEN SendMsg(R.sent[Round]) /\ done' = FALSE
            ELSE Bad("a round message is missing") /\ done' = TRUE /\ UNCHANGED vars
         /\ UNCHANGED <<i, zc>>
TChal == /\ ~done /\ phase = "verifier"
         /\ IF Round <= Len(R.chals) THEN ChallengeIs(R.chals[Round]) /\ done' = FALSE
            ELSE Bad("a challenge is missing") /\ done' = TRUE /\ UNCHANGED vars
         /\ UNCHANGED <<i, zc>>

ZcResidualOK == /\ Fmul(R.expected, EqAt(R.point, R.r)) = ResidualOf(msgs, chals)
                /\ R.expected = VpAt(SubSeq(cols, 1, Len(cols) - 1), R.prods, R.point)
TDecide == /\ ~done /\ phase = "decide"
           /\ Decide
           /\ Take((R.verdict = "accept") = Verdict, "verdict " \o R.verdict \o " where the specification says " \o (IF Verdict THEN "accept" ELSE "reject"))
           /\ Take(Len(R.chals) = Nv /\ Len(R.made) = Nv, "number of rounds")
           /\ IF R.verdict = "accept" /\ Verdict
              THEN /\ Take(R.point = chals, "residual point is not the challenge point")
                   /\ IF zc THEN Take(ZcResidualOK, "zerocheck residual claim")
                      ELSE Take(R.expected = ResidualOf(msgs, chals), "residual value is not the last message at the last challenge")
              ELSE TRUE
           /\ Take((honest /\ claim = VpSum(cols, prods)) => Verdict, "SPEC completeness")
           /\ PrintT("DONE " \o ToJson(i))
           /\ done' = TRUE /\ UNCHANGED <<i, zc>>

TNext == TSend \/ TChal \/ TDecide
TSpec == TInit /\ [][TNext]_tvars

TResidual == (phase = "accepted" /\ honest) => ResidualOf(msgs, chals) = VpAt(cols, prods, chals)
=============================================================================
