------------------------------- MODULE Protocol ------------------------------
(* A compiled proof on its way from the prover to the verifier, with an active *)
(* adversary in between (and in the prover's place).  Cryptography is ideal:   *)
(* a challenge is a fresh function of everything absorbed before it, a         *)
(* commitment can be opened to its own values only.                            *)
(*                                                                             *)
(* The verifier's run is compared with the honest run the proof was made in:   *)
(*   dev    its transcript differs from the prover's                           *)
(*   claim  the claim it carries into the next round is "true" (the honest      *)
(*          run's), "poly" (the honest run's number, about another polynomial),  *)
(*          or "lie"                                                             *)
(* A message copied from the honest run passes a check exactly when the         *)
(* verifier is still in that run; a forged one is made by the adversary after    *)
(* seeing the challenges drawn so far.                                           *)
(*                                                                               *)
(* AbsorbComms/Sums/Msgs/Evals, FinalCheck, DerivedPoint, CheckOpening are the    *)
(* safeguards; switching one off is a named deviation, and TLC exhibits the       *)
(* attack.  The code under test has FinalCheck off (known finding).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rounds, AbsorbComms, AbsorbSums, AbsorbMsgs, AbsorbEvals, FinalCheck, DerivedPoint, CheckOpening, MaxTampers, Adaptive, EmitOn

VARIABLES atk, at, dev, claim, verdict
vars == <<atk, at, dev, claim, verdict>>

(* ------------------------------------------------------------ the adversary *)
Msg == {"h", "x01", "xk"} \cup (IF Adaptive THEN {"f", "hit"} ELSE {})
Attacks ==
  [false : IF Adaptive THEN BOOLEAN ELSE {FALSE},            \* the program's claims are false
   hist  : {"h", "x"},                                       \* the verifier absorbed or drew something else
   comm  : {"h", "x"} \cup (IF Adaptive THEN {"late"} ELSE {}),  \* "late": chosen after the challenges, so that false claims cancel under them
   claims: {"h", "x", "value", "other"},                     \* more or fewer claims; another claimed value; about another polynomial
   sum   : {"h", "x"} \cup (IF Adaptive THEN {"cancel"} ELSE {}),
   aux   : {"h", "x"},
   shape : {"h", "x"},                                       \* rounds or evaluations missing or added
   msgs  : [1..Rounds -> Msg],
   point : {"h", "x"},                                       \* the point the prover writes down next to the messages
   open  : {"h", "x", "none"} \cup (IF Adaptive THEN {"redo", "lie"} ELSE {})]
Tampers(a) ==
  Cardinality({k \in {"hist", "comm", "claims", "sum", "aux", "shape", "point", "open"} : a[k] # "h"}) + Cardinality({j \in 1..Rounds : a.msgs[j] # "h"})
(* the values that change nothing the verifier relies on *)
Unread(a) == a.point
Honest == [false |-> FALSE, hist |-> "h", comm |-> "h", claims |-> "h", sum |-> "h", aux |-> "h", shape |-> "h",
           msgs |-> [j \in 1..Rounds |-> "h"], point |-> "h", open |-> "h"]

Init == /\ atk \in {a \in Attacks : Tampers(a) <= MaxTampers}
        /\ at = -3 /\ dev = FALSE /\ claim = "true" /\ verdict = "open"

Done == Rounds + 2
Rej == verdict' = "reject" /\ at' = Done
Go(s) == at' = s /\ UNCHANGED verdict

(* a commitment that is not the prover's: everything opened against it is false *)
Comms == /\ at = -3 /\ Go(-2)
         /\ dev' = (dev \/ atk.hist = "x" \/ (AbsorbComms /\ atk.comm # "h"))
         /\ UNCHANGED <<atk, claim>>
(* one challenge per claim; then the claimed sums, then one challenge per sum *)
Claims == /\ at = -2 /\ Go(-1)
          /\ dev' = (dev \/ atk.claims = "x")
          /\ claim' = IF atk.claims \in {"x", "value"} \/ atk.false \/ (atk.comm = "late" /\ dev') THEN "lie"
                      ELSE IF atk.claims = "other" THEN "poly" ELSE "true"
          /\ UNCHANGED atk
Sums == /\ at = -1 /\ Go(0)
        /\ dev' = (dev \/ (AbsorbSums /\ (atk.sum # "h" \/ atk.claims = "value")))
        (* false sums that cancel under the honest run's challenges, which were drawn before they were chosen *)
        /\ claim' = IF atk.sum = "x" \/ (atk.sum = "cancel" /\ dev') THEN "lie" ELSE claim
        /\ UNCHANGED atk
Aux == /\ at = 0
       /\ IF atk.shape = "x" THEN Rej ELSE Go(1)
       /\ dev' = (dev \/ atk.aux = "x") /\ UNCHANGED <<atk, claim>>
(* the sum of the round's values is compared with the claim; then the message is absorbed *)
Passes(m) == \/ m = "f"                                \* made to pass
             \/ m = "hit"                              \* made to pass and to take the honest value at a known challenge
             \/ m \in {"h", "xk"} /\ claim # "lie"     \* the values summed here are the honest ones
Round(j) == LET m == atk.msgs[j] IN
       /\ at = j
       /\ IF Passes(m) THEN Go(IF j = Rounds THEN Rounds + 1 ELSE j + 1) ELSE Rej
       /\ dev' = (dev \/ (AbsorbMsgs /\ m # "h"))
       /\ claim' = IF m = "h" /\ claim # "lie" /\ ~dev' THEN claim
                   ELSE IF m = "hit" /\ ~dev' THEN (IF atk.claims = "other" THEN "poly" ELSE "true")   \* only if the challenge did not depend on the message
                   ELSE "lie"
       /\ UNCHANGED atk
(* openings: "h" those of the honest run, "redo" honest ones made for this run, "lie" values that fit the claim *)
Opens == LET o == atk.open  own == atk.comm # "x" IN
         CASE o = "h"    -> ~dev /\ own
           [] o = "redo" -> own
           [] o = "lie"  -> ~AbsorbEvals \/ ~DerivedPoint
           [] o = "x"    -> FALSE
           [] OTHER      -> FALSE
(* after "redo" the opened values are the true ones at this run's point: a lie does not fit them *)
Fits == claim = "true" \/ (atk.open = "lie" /\ Opens)
Open == /\ at = Rounds + 1
        /\ IF (CheckOpening => Opens) /\ (FinalCheck => Fits) /\ atk.open # "none" THEN verdict' = "accept" /\ at' = Done ELSE Rej
        /\ UNCHANGED <<atk, dev, claim>>
Next == Comms \/ Claims \/ Sums \/ Aux \/ (\E j \in 1..Rounds : Round(j)) \/ Open \/ (at = Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --------------------------------------------------------------- properties *)
Falsehood == atk.false \/ atk.sum # "h" \/ atk.claims \in {"value", "other"} \/ atk.comm # "h"
Changed   == \E k \in {"hist", "comm", "claims", "sum", "aux", "shape", "open"} : atk[k] \in {"x", "value", "none"}
XMsgs     == \E j \in 1..Rounds : atk.msgs[j] \in {"x01", "xk"}
NoForging == (\A j \in 1..Rounds : atk.msgs[j] \in {"h", "x01", "xk"}) /\ atk.open \in {"h", "x", "none"} /\ atk.sum # "cancel" /\ atk.comm # "late" /\ ~atk.false
Complete  == (at = Done /\ atk = Honest) => verdict = "accept"
Bound     == (at = Done /\ NoForging /\ (Changed \/ XMsgs)) => verdict = "reject"
Sound     == (at = Done /\ Falsehood) => verdict = "reject"
(* what still holds without the final check: a lie gets through only by forged messages, or when it is one about another polynomial *)
SoundButForged == (at = Done /\ Falsehood /\ verdict = "accept") => atk.claims = "other" \/ \E j \in 1..Rounds : atk.msgs[j] \in {"f", "hit"}
BoundToPoly == (at = Done /\ NoForging /\ atk.claims = "other") => verdict = "reject"
Decides   == <>(verdict # "open")

(* ------------------------------------------------------------ attacks to replay *)
Emit == (EmitOn /\ at = Done /\ NoForging) =>
          PrintT("CASE " \o ToJson([hist |-> atk.hist, comm |-> atk.comm, claims |-> atk.claims, sum |-> atk.sum, aux |-> atk.aux, shape |-> atk.shape,
                                    msgs |-> atk.msgs, point |-> atk.point, open |-> atk.open, expect |-> verdict]))
=============================================================================
