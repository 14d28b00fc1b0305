--------------------------------- MODULE Iop ---------------------------------
(* One run of one gadget as a protocol: inputs are committed, the prover      *)
(* commits its advice (honest, or anything at all when Cheating), the gadget  *)
(* unfolds into smaller gadgets until only leaf claims are left, and the      *)
(* verifier accepts exactly when every leaf claim holds.                      *)
(*   Sound     an accepting run implies the gadget's relation;                *)
(*   Complete  an honest run of a true statement is accepted.                 *)
(* Deciding a run also prints it (EmitOn): the conformance harness replays    *)
(* every printed run through the real prover and verifier.                    *)
EXTENDS Gadgets, Json

CONSTANTS Gads,        \* which gadgets
          Random,      \* FALSE: every input of the exhaustive domain; TRUE: random good inputs, then edits
          Cheating,    \* how often in a run a gadget may commit something else than its honest advice
          CheatDeep,   \* TRUE: anything in AdvDom may be committed, FALSE: only what SmartAdv suggests
          MaxEdits, EmitOn

VARIABLES phase, gad, args, edits, stack, claims, cheated

vars == <<phase, gad, args, edits, stack, claims, cheated>>

Init == /\ phase = "pick" /\ gad = "" /\ args = <<>> /\ edits = 0
        /\ stack = <<>> /\ claims = <<>> /\ cheated = <<>>

Pick == /\ phase = "pick"
        /\ \E g \in (IF Random THEN {RandomElement(Gads)} ELSE Gads) :
             \E a \in (IF Random THEN {TLCEval(Good(g))} ELSE Dom(g)) :
               /\ gad' = g /\ args' = a
               /\ IF Random
                  THEN phase' = "edit" /\ stack' = <<>>
                  ELSE phase' = "run" /\ stack' = <<Call(g, a)>>
        /\ edits' = 0 /\ claims' = <<>> /\ cheated' = <<>>

Edit == /\ phase = "edit"
        /\ \E more \in {RandomElement({0, 0, 1})} :
             IF edits < MaxEdits /\ RandomElement(1..5) <= 3
             THEN /\ \E a \in {TLCEval(EditArgs(gad, args))} : args' = a
                  /\ edits' = edits + 1 /\ UNCHANGED <<phase, stack>>
             ELSE /\ phase' = "run" /\ stack' = <<Call(gad, args)>> /\ UNCHANGED <<args, edits>>
        /\ UNCHANGED <<gad, claims, cheated>>

Lies(g, a) == IF Len(cheated) >= Cheating THEN {}
              ELSE (SmartAdv(g, a) \cup (IF CheatDeep THEN AdvDom(g, a) ELSE {})) \ {Honest(g, a)}
Lie(c, w)  == [op |-> c.op, inv |-> IF c.op = "no_zeros" THEN c.a[1].v ELSE <<>>,
               from |-> IF c.op = "no_zeros" THEN <<>> ELSE AdvCols(c.op, Honest(c.op, c.a)),
               to |-> IF c.op = "no_zeros" THEN <<w>> ELSE AdvCols(c.op, w)]
(* honest advice, or a lie; a random run prefers to lie when it can *)
Expand == /\ phase = "run" /\ stack # <<>>
          /\ LET c == Head(stack) IN
             IF IsLeaf(c)
             THEN /\ claims' = Append(claims, LeafHolds(c)) /\ stack' = Tail(stack)
                  /\ IF Len(cheated) < Cheating /\ Random /\ c.op = "MT" /\ ~LeafHolds(c) /\ MTTargets(c) # {}
                     THEN \E t \in {RandomElement(MTTargets(c))} : cheated' = Append(cheated, MTLie(c, t))
                     ELSE UNCHANGED cheated
             ELSE \E lies \in {TLCEval(Lies(c.op, c.a))} :
                  \E w \in (IF Random THEN {TLCEval(RandomElement(IF lies = {} \/ RandomElement(1..4) = 1 THEN {Honest(c.op, c.a)}
                                                    ELSE IF RandomElement(1..3) = 1 THEN {TLCEval(Smudged(c.op, c.a))} ELSE lies))}
                            ELSE lies \cup {Honest(c.op, c.a)}) :
                    /\ stack' = Subs(c.op, c.a, w) \o Tail(stack)
                    /\ cheated' = IF w = Honest(c.op, c.a) THEN cheated ELSE Append(cheated, Lie(c, w))
                    /\ UNCHANGED claims
          /\ UNCHANGED <<phase, gad, args, edits>>

Holds == \A i \in 1..Len(claims) : claims[i]
Fails == SelectSeq([i \in 1..Len(claims) |-> IF claims[i] THEN 0 ELSE i], LAMBDA x : x # 0)

Decide == /\ phase = "run" /\ stack = <<>>
          /\ phase' = "done"
          /\ (EmitOn /\ cheated = <<>> /\ Cheating = 0) => PrintT("CASE " \o ToJson(CaseOf(gad, args, Holds, Fails)))
          /\ (EmitOn /\ cheated # <<>> /\ ~Rel(gad, args) /\ RandomElement(1..CheatKeep) = 1)
               => PrintT("CASE " \o ToJson(CheatOf(gad, args, cheated, Fails)))
          /\ UNCHANGED <<gad, args, edits, stack, claims, cheated>>

Again == Random /\ phase = "done" /\ phase' = "pick" /\ UNCHANGED <<gad, args, edits, stack, claims, cheated>>
Stop  == ~Random /\ phase = "done" /\ UNCHANGED vars

Next == Pick \/ Edit \/ Expand \/ Decide \/ Again \/ Stop
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------- properties -- *)
Sound    == (phase = "done" /\ Holds /\ SelsOK(gad, args) /\ RangeSane(gad, args)) => Rel(gad, args)
Complete == (phase = "done" /\ cheated = <<>> /\ SelsOK(gad, args) /\ Rel(gad, args) /\ RangeCovers(gad, args)) => Holds
(* what strict sorting and supports mean for the data *)
Meaning  == (phase = "done" /\ Holds /\ SelsOK(gad, args) /\ RangeSane(gad, args)) =>
    CASE gad = "strict_sort" -> StrictlyIncreasing(ActiveSeq(args[1]))
      [] gad \in {"supp", "supp_adv"} -> /\ StrictlyIncreasing(ActiveSeq(args[2]))
                                         /\ Vals(args[1]) = Vals(args[2])
      [] gad = "set_union" -> StrictlyIncreasing(ActiveSeq(args[3]))
      [] gad = "set_diff" -> Vals(args[3]) = Vals(args[1]) \ Vals(args[2])
      [] gad = "set_intersect" -> (DupFree(args[1]) /\ DupFree(args[2])) => Vals(args[4]) = Vals(args[1]) \cap Vals(args[2])
      [] gad = "bag_disjoint_adv" -> Disjoint(args[1], args[2])
      [] gad = "group_by" -> /\ StrictlyIncreasing(ActiveSeq(args[2]))
                             /\ Vals(args[2]) = Vals(GroupBag(args[1], args[4]))
                             /\ \A j \in Active(args[2]) : args[3].v[j] = Mult(GroupBag(args[1], args[4]), args[2].v[j])
      [] OTHER -> TRUE
=============================================================================
