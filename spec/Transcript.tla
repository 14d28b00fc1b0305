------------------------------ MODULE Transcript ------------------------------
(* A transcript is the free sequence of what was absorbed and drawn: a challenge *)
(* IS its history.  Two transcripts (of one run and of another, of the prover    *)
(* and of the verifier, of a copy and of its original) draw the same challenge   *)
(* exactly when their histories are the same.                                    *)
(*                                                                                *)
(* Dev names ways of absorbing less than everything; TLC exhibits two histories   *)
(* that each of them confuses.  Level "raw": the transcript's own operations;     *)
(* "tracker": the trackers', where commitments and messages are absorbed and      *)
(* everything else (expressions, claims, uncommitted columns) is silent.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Level, MaxLen, Two, Dev, Mode      \* Mode: "all" | "random"

VARIABLES t1, t2, n
vars == <<t1, t2, n>>

(* ---------------------------------------------------------------- operations *)
Op(o, l, c) == [o |-> o, l |-> l, c |-> c]
Raw == {Op("msg", l, [t |-> "b", x |-> b]) : l \in {"a", "b"}, b \in {<<>>, <<7>>, <<7, 7>>}}
       \cup {Op("fe", l, [t |-> "f", x |-> <<v>>]) : l \in {"a", "b"}, v \in {0, 1}}
       \cup {Op("enc", "a", [t |-> "f", x |-> <<1>>]), Op("ser", "a", [t |-> "f", x |-> <<1>>])}     \* other ways to absorb the bytes of 1
       \cup {Op("vec", "a", [t |-> "v", x |-> v]) : v \in {<<>>, <<1>>, <<1, 0>>}}
       \cup {Op("chal", l, [t |-> "c", x |-> <<1>>]) : l \in {"a", "b"}}
       \cup {Op("chals", "a", [t |-> "c", x |-> <<k>>]) : k \in {0, 2}}
       \cup {Op("fork", "", [t |-> "", x |-> <<>>]), Op("swap", "", [t |-> "", x |-> <<>>])}
Trk == {Op("commit", "comm", [t |-> "col", x |-> v]) : v \in {<<1, 2>>, <<1, 3>>, <<2, 1>>, <<1, 2, 1, 2>>}}
       \cup {Op("absorb", "m", [t |-> "f", x |-> <<v>>]) : v \in {0, 1}}
       \cup {Op("chal", "a", [t |-> "c", x |-> <<1>>])}
       \cup {Op(o, "", [t |-> "", x |-> <<>>]) : o \in {"pub", "mul", "zero", "sum"}}
(* long messages <<length, place, byte>>, large field elements <<exponent, odd factor>>, long vectors, long labels: *)
(* all zero but at one place, so that two of them differ in a single byte *)
Long == {Op("long", l, [t |-> "B", x |-> <<k, p, v>>]) : l \in {"a", "A1", "A2"}, p \in 1..4, v \in {1, 255}, k \in {33, 64, 65, 200, 256, 300, 5000, 70000}}
        \cup {Op("big", l, [t |-> "F", x |-> <<e, v>>]) : l \in {"a", "ab", "A1"}, e \in {8, 64, 128, 240}, v \in {1, 3}}
        \cup {Op("col", l, [t |-> "V", x |-> <<k, p, v>>]) : l \in {"a", "A1", "A2"}, p \in 1..4, v \in {1, 2}, k \in {5, 17, 33, 130, 2100}}
        \cup {Op("chal", l, [t |-> "c", x |-> <<1>>]) : l \in {"a", "A1", "A2", "ab"}}
        \cup {Op("chals", "a", [t |-> "c", x |-> <<k>>]) : k \in {1, 3, 17}}
        \cup {Op("fork", "", [t |-> "", x |-> <<>>]), Op("swap", "", [t |-> "", x |-> <<>>])}
Ops == IF Level = "raw" THEN Raw ELSE IF Level = "long" THEN Long ELSE Trk
(* the operations that differ from o in one place of the same message *)
Near(o) == LET S == {p \in Ops : p.o = o.o /\ p.c.t = o.c.t /\ p # o /\ Len(p.c.x) = Len(o.c.x)
                                 /\ Cardinality({i \in 1..Len(o.c.x) : o.c.x[i] # p.c.x[i]}) + (IF p.l = o.l THEN 0 ELSE 1) = 1}
           IN IF S = {} THEN Ops ELSE S
Silent(o) == o.o \in {"pub", "mul", "zero", "sum"}
Absorbs(o) == o.o \in {"msg", "fe", "enc", "ser", "vec", "commit", "absorb", "long", "big", "col"}

(* ------------------------------------------------- what goes into the history *)
Item(o) == [l |-> o.l, c |-> o.c]
Seen(s, o) ==                                  \* the implementation's view of it
  CASE Dev = "none"      -> Append(s, Item(o))
    [] Dev = "skipempty" -> IF o.c.x = <<>> /\ o.c.t = "b" THEN s ELSE Append(s, Item(o))
    [] Dev = "nolabel"   -> Append(s, o.c)
    [] Dev = "first"     -> Append(s, IF o.c.t = "v" /\ o.c.x # <<>> THEN [l |-> o.l, c |-> [t |-> "v", x |-> <<o.c.x[1]>>]] ELSE Item(o))
    [] Dev = "concat"    -> IF s # <<>> /\ s[Len(s)].l = o.l /\ "c" \in DOMAIN s[Len(s)] /\ s[Len(s)].c.t = o.c.t
                            THEN [s EXCEPT ![Len(s)].c.x = @ \o o.c.x] ELSE Append(s, Item(o))
    [] Dev \in {"late", "deaf"} -> Append(s, Item(o))
Draw(s, l) == Append(s, [l |-> l, ch |-> TRUE])
View(s) == IF Dev = "late" /\ s # <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s     \* drawn before the last message went in

Empty == [ops |-> <<>>, h |-> <<>>, s |-> <<>>, fh |-> <<>>, fs |-> <<>>, out |-> <<>>]
(* one challenge: out gets the history it stands for (h), and the implementation's view of it (v); the empty history is refused *)
DrawIn(t, l) == IF t.h = <<>> THEN [t EXCEPT !.out = Append(@, [h |-> <<>>, v |-> <<>>])]
                ELSE [t EXCEPT !.out = Append(@, [h |-> Draw(t.h, l), v |-> Draw(View(t.s), l)]),
                               !.h = Draw(@, l), !.s = IF Dev = "deaf" THEN @ ELSE Draw(@, l)]
RECURSIVE DrawK(_, _, _)
DrawK(t, l, k) == IF k = 0 THEN t ELSE DrawK(DrawIn(t, l), l, k - 1)
Apply(t, o) ==
  LET u == [t EXCEPT !.ops = Append(@, o)] IN
  CASE Absorbs(o)      -> [u EXCEPT !.h = Append(@, Item(o)), !.s = Seen(@, o)]
    [] o.o = "chal"    -> DrawIn(u, o.l)
    [] o.o = "chals"   -> IF t.h = <<>> THEN DrawIn(u, o.l) ELSE DrawK(u, o.l, o.c.x[1])
    [] o.o = "fork"    -> [u EXCEPT !.fh = t.h, !.fs = t.s]
    [] o.o = "swap"    -> [u EXCEPT !.h = t.fh, !.s = t.fs, !.fh = t.h, !.fs = t.s]
    [] OTHER           -> u
LastChal == CHOOSE o \in Ops : o.o = "chal" /\ o.l = "a"

(* ------------------------------------------------------------------ exploring *)
Init == t1 = Empty /\ t2 = Empty /\ n = 0
(* every sequence (and every pair of sequences) *)
Step1 == /\ Len(t1.ops) < MaxLen /\ (t2.ops = <<>>) /\ \E o \in Ops : t1' = Apply(t1, o)
         /\ UNCHANGED <<t2, n>>
Step2 == /\ Two /\ Len(t1.ops) = MaxLen /\ Len(t2.ops) < MaxLen /\ \E o \in Ops : t2' = Apply(t2, o)
         /\ UNCHANGED <<t1, n>>
(* a long sequence and a copy of it changed at one place *)
RECURSIVE Run(_, _)
Run(t, os) == IF os = <<>> THEN t ELSE Run(Apply(t, Head(os)), Tail(os))
RndOps(k) == TLCEval([j \in 1..k |-> RandomElement(Ops)])
Edit(os, i, o, e) ==
  LET a == SubSeq(os, 1, i - 1)  b == SubSeq(os, i + 1, Len(os)) IN
  CASE e = "change" -> a \o <<o>> \o b
    [] e = "drop"   -> a \o b
    [] e = "insert" -> a \o <<o, os[i]>> \o b
    [] e = "twice"  -> a \o <<os[i], os[i]>> \o b
    [] e = "swap"   -> IF b = <<>> THEN a \o <<o>> ELSE a \o <<b[1], os[i]>> \o Tail(b)
    [] OTHER        -> a \o <<[os[i] EXCEPT !.l = IF Level = "raw" /\ os[i].l = "a" /\ os[i].o # "chals" THEN "b" ELSE @]>> \o b
RndStep == /\ n < 20
           /\ \E k \in {IF n >= 0 THEN RandomElement(4..MaxLen) ELSE 0} : \E os \in {RndOps(k)} :
              \E i \in {TLCEval(RandomElement(1..Len(os)))} :
              \E es \in {TLCEval(Edit(os, i, RandomElement(IF RandomElement(1..2) = 1 THEN Near(os[i]) ELSE Ops), RandomElement({"change", "drop", "insert", "twice", "swap", "relabel"})))} :
                t1' = Run(Empty, os \o <<LastChal>>) /\ t2' = Run(Empty, es \o <<LastChal>>)
           /\ n' = n + 1
Next == IF Mode = "all" THEN Step1 \/ Step2 ELSE RndStep
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
Outs == {t1.out[i] : i \in 1..Len(t1.out)} \cup {t2.out[i] : i \in 1..Len(t2.out)}
Binding == \A a, b \in Outs : (a.v = b.v) <=> (a.h = b.h)
(* everything absorbed so far is in a challenge's history *)
Monotone == \A t \in {t1, t2} : (\A i \in 1..Len(t.ops) : t.ops[i].o \notin {"fork", "swap"}) =>
                \A i \in 1..Len(t.out) : \A k \in 1..Len(t.out[i].h) : t.h[k] = t.out[i].h[k]

Pr(t) == [ops |-> t.ops, out |-> [i \in 1..Len(t.out) |-> ToString(t.out[i].h)]]
Emit == IF Mode = "all" THEN (Len(t1.ops) = MaxLen /\ t2.ops = <<>>) => PrintT("CASE " \o ToJson([k |-> Level, runs |-> <<Pr(Run(Empty, t1.ops \o <<LastChal>>))>>]))
        ELSE n > 0 => PrintT("CASE " \o ToJson([k |-> Level, runs |-> <<Pr(t1), Pr(t2)>>]))
=============================================================================
