-------------------------------- MODULE Prog --------------------------------
(* Programs over tracked polynomials.  A program commits columns, combines    *)
(* them with the tracker's operations, draws challenges, absorbs messages,    *)
(* copies the tracker, and finally claims that some results are zero on every *)
(* row or have a given sum.                                                    *)
(*   Val(o, x)   what a tracked polynomial denotes, at any point x;            *)
(*   Rows(o)     its values on the boolean hypercube;                          *)
(*   ValV(o, x)  what the verifier's mirror object evaluates to.               *)
(* An extension of a product is the multilinear polynomial with the repeated   *)
(* rows on the prover and the product at the shortened point on the verifier;  *)
(* the two agree on the hypercube always, and everywhere when nothing of       *)
(* degree > 1 is extended (`ml`).                                              *)
EXTENDS Vecs, Json

CONSTANTS Mode,       \* "eval": probe denotations; "claims": prove and verify claims
          MaxOps, MaxNv, MaxDeg, Truth   \* Truth: "true" | "false" | "mixed" claims

VARIABLES brs,        \* branches of the tracker: 1 = the original, 2 = its deep copy (if any)
          prog,       \* the steps so far
          ops, phase

vars == <<brs, prog, ops, phase>>

(* ------------------------------------------------------------ denotation *)
RECURSIVE MleAt(_, _)
MleAt(v, x) == IF Len(x) = 0 THEN v[1]
               ELSE MleAt([i \in 1..(Len(v) \div 2) |-> v[2*i - 1] + (v[2*i] - v[2*i - 1]) * x[1]], Tail(x))
BoolPt(i, n) == [k \in 1..n |-> (i \div Pow2(k - 1)) % 2]

RECURSIVE Val(_, _, _)
Val(env, i, x) ==
    LET o == env[i] IN
    CASE o.op \in {"col", "pub", "incf", "incb"} -> MleAt(o.rows, x)
      [] o.op = "add"  -> Val(env, o.a[1], x) + Val(env, o.a[2], x)
      [] o.op = "sub"  -> Val(env, o.a[1], x) - Val(env, o.a[2], x)
      [] o.op = "mul"  -> Val(env, o.a[1], x) * Val(env, o.a[2], x)
      [] o.op = "adds" -> Val(env, o.a[1], x) + o.c
      [] o.op = "muls" -> Val(env, o.a[1], x) * o.c

RECURSIVE ValV(_, _, _)
ValV(env, i, x) ==
    LET o == env[i] IN
    CASE o.op \in {"col", "pub"} -> MleAt(o.rows, x)
      [] o.op = "incf" -> ValV(env, o.a[1], SubSeq(x, o.c + 1, Len(x)))
      [] o.op = "incb" -> ValV(env, o.a[1], SubSeq(x, 1, Len(x) - o.c))
      [] o.op = "add"  -> ValV(env, o.a[1], x) + ValV(env, o.a[2], x)
      [] o.op = "sub"  -> ValV(env, o.a[1], x) - ValV(env, o.a[2], x)
      [] o.op = "mul"  -> ValV(env, o.a[1], x) * ValV(env, o.a[2], x)
      [] o.op = "adds" -> ValV(env, o.a[1], x) + o.c
      [] o.op = "muls" -> ValV(env, o.a[1], x) * o.c

MaxAbs(v) == MaxSet({IF x < 0 THEN -x ELSE x : x \in Ran(v)})
RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN 1 ELSE 3 * Pow3(n - 1)
Cap(x) == IF x > 30000 THEN 30000 ELSE x         \* larger values are not probed off the hypercube
CapMul(a, b) == Cap(Cap(a) * Cap(b))

Obj(op, a, c, nv, rows, deg, ml, bnd) ==
    [op |-> op, a |-> a, c |-> c, nv |-> nv, rows |-> rows, deg |-> deg, ml |-> ml, bnd |-> Cap(bnd)]
Col(op, v) == Obj(op, <<>>, 0, Log2(Len(v)), v, 1, TRUE, MaxAbs(v) * Pow3(Log2(Len(v))))

Apply(env, op, i, j, c) ==
    LET x == env[i]  y == env[j] IN
    CASE op = "add"  -> Obj(op, <<i, j>>, 0, x.nv, [k \in 1..Len(x.rows) |-> x.rows[k] + y.rows[k]],
                            MaxInt(x.deg, y.deg), x.ml /\ y.ml, x.bnd + y.bnd)
      [] op = "sub"  -> Obj(op, <<i, j>>, 0, x.nv, [k \in 1..Len(x.rows) |-> x.rows[k] - y.rows[k]],
                            MaxInt(x.deg, y.deg), x.ml /\ y.ml, x.bnd + y.bnd)
      [] op = "mul"  -> Obj(op, <<i, j>>, 0, x.nv, [k \in 1..Len(x.rows) |-> x.rows[k] * y.rows[k]],
                            x.deg + y.deg, x.ml /\ y.ml, CapMul(x.bnd, y.bnd))
      [] op = "adds" -> Obj(op, <<i>>, c, x.nv, [k \in 1..Len(x.rows) |-> x.rows[k] + c], x.deg, x.ml, x.bnd + 9)
      [] op = "muls" -> Obj(op, <<i>>, c, x.nv, [k \in 1..Len(x.rows) |-> x.rows[k] * c], x.deg, x.ml, CapMul(x.bnd, 9))
      [] op = "incf" -> Obj(op, <<i>>, c, x.nv + c, FrontExt(x.rows, c), 1, x.ml /\ x.deg = 1,
                            CapMul(MaxAbs(x.rows), Pow3(x.nv + c)))
      [] op = "incb" -> Obj(op, <<i>>, c, x.nv + c, BackExt(x.rows, c), 1, x.ml /\ x.deg = 1,
                            CapMul(MaxAbs(x.rows), Pow3(x.nv + c)))

(* --------------------------------------------------------------- steps *)
Fresh == [env |-> <<>>, tr |-> <<>>, claims |-> <<>>]
Rnd(S) == RandomElement(S)
RndCol(n) == LET big == IF Rnd(1..3) = 1 THEN 3 ELSE 1 IN [k \in 1..Pow2(n) |-> Rnd((-big)..big)]
St(op, br, args, p) == [op |-> op, br |-> br - 1, args |-> args, p |-> p]
NoP == [x |-> 0]
Idx(s) == [k \in 1..Len(s) |-> s[k] - 1]

Init == brs = <<Fresh>> /\ prog = <<>> /\ ops = 0 /\ phase = "run"

PickBr == IF Mode = "claims" THEN 1 ELSE Rnd(1..Len(brs))

AddObj(b, o, st) ==
    /\ brs' = [brs EXCEPT ![b].env = Append(@, o)]
    /\ prog' = Append(prog, st)
AddCol(b, o, st) ==
    /\ brs' = [brs EXCEPT ![b].env = Append(@, o), ![b].tr = Append(@, <<"comm", o.rows>>)]
    /\ prog' = Append(prog, st)

Commit ==
    \E b \in {PickBr} : \E n \in {Rnd(0..MaxNv)} : \E v \in {TLCEval(RndCol(n))} :
        AddCol(b, Col("col", v), St("commit", b, <<>>, [v |-> v]))

(* a public column: tracked on both sides, never committed *)
Public ==
    \E b \in {PickBr} : \E n \in {Rnd(0..MaxNv)} : \E v \in {TLCEval(RndCol(n))} :
        AddObj(b, Col("pub", v), St("pub", b, <<>>, [v |-> v]))

(* commit a column holding the rows of an earlier result, possibly off by d at one row *)
CommitRows ==
    \E b \in {PickBr} : brs[b].env # <<>> /\
      \E i \in {Rnd(1..Len(brs[b].env))} : \E d \in {IF Rnd(1..3) = 1 THEN Rnd({1, -1}) ELSE 0} :
      \E k \in {Rnd(1..Len(brs[b].env[i].rows))} :
      \E v \in {[brs[b].env[i].rows EXCEPT ![k] = @ + d]} :
        AddCol(b, Col("col", v), St("commit", b, <<>>, [v |-> v]))

BinOps == {"add", "sub", "mul", "mul"}
UnOps  == {"adds", "muls", "incf", "incb"}

Binary ==
    \E b \in {PickBr} : brs[b].env # <<>> /\
      \E op \in {Rnd({"add", "sub", "mul"})} : \E i \in {Rnd(1..Len(brs[b].env))} :
        LET env == brs[b].env
            mates == {j \in 1..Len(env) : env[j].nv = env[i].nv
                                          /\ (op = "mul" => env[i].deg + env[j].deg <= MaxDeg)
                                          /\ MaxAbs(env[j].rows) * MaxAbs(env[i].rows) < 20000}
        IN  mates # {} /\ \E j \in {Rnd(mates)} :
              \E o \in {TLCEval(Apply(env, op, i, j, 0))} : AddObj(b, o, St(op, b, <<i - 1, j - 1>>, NoP))

Unary ==
    \E b \in {PickBr} : brs[b].env # <<>> /\
      \E op \in {Rnd(UnOps)} : \E i \in {Rnd(1..Len(brs[b].env))} :
        LET env == brs[b].env
            c == IF op \in {"incf", "incb"} THEN Rnd(0..2) ELSE Rnd((-3)..3)
        IN  /\ op \in {"incf", "incb"} => env[i].nv + c <= MaxNv + 1
            /\ MaxAbs(env[i].rows) < 20000
            /\ \E o \in {TLCEval(Apply(env, op, i, i, c))} :
                 AddObj(b, o, St(op, b, <<i - 1>>, IF op \in {"incf", "incb"} THEN [n |-> o.c] ELSE [c |-> o.c]))

Challenge ==
    \E b \in {PickBr} :
        /\ brs[b].tr # <<>>
        /\ brs' = [brs EXCEPT ![b].tr = Append(@, <<"chal">>)]
        /\ prog' = Append(prog, St("chal", b, <<>>, NoP))

Absorb ==
    \E b \in {PickBr} : \E x \in {Rnd(0..5)} :
        /\ brs' = [brs EXCEPT ![b].tr = Append(@, <<"absorb", x>>)]
        /\ prog' = Append(prog, St("absorb", b, <<>>, [c |-> x]))

Read ==
    \E b \in {PickBr} : brs[b].env # <<>> /\
      \E i \in {Rnd(1..Len(brs[b].env))} :
        /\ prog' = Append(prog, St("read", b, <<i - 1>>, [v |-> brs[b].env[i].rows]))
        /\ UNCHANGED brs

Copy ==
    /\ Mode = "eval" /\ Len(brs) = 1 /\ brs[1].env # <<>>
    /\ brs' = Append(brs, brs[1])
    /\ prog' = Append(prog, St("copy", 1, <<>>, NoP))

(* ------------------------------------------------------------- claims *)
IsZero(o) == \A k \in 1..Len(o.rows) : o.rows[k] = 0
SumOf(o)  == SumFn(o.rows)
ZeroClaim ==
    /\ brs[1].env # <<>>
    /\ LET env == brs[1].env
           zs == {i \in 1..Len(env) : IsZero(env[i]) <=> (Truth # "false")}
           all == IF Truth = "mixed" /\ Rnd(1..8) = 1 THEN 1..Len(env) ELSE zs
       IN  all # {} /\ \E i \in {Rnd(all)} :
            /\ brs' = [brs EXCEPT ![1].claims = Append(@, IsZero(env[i]))]
            /\ prog' = Append(prog, St("zero", 1, <<i - 1>>, NoP))
SumClaim ==
    /\ brs[1].env # <<>>
    /\ \E i \in {Rnd(1..Len(brs[1].env))} :
       \E d \in {IF Truth = "true" THEN 0 ELSE IF Truth = "false" THEN Rnd({1, -1, 2}) ELSE IF Rnd(1..10) = 1 THEN Rnd({1, -1, 5}) ELSE 0} :
       \E w \in {Rnd({"sum", "sum", "sum_get"})} :
         LET o == brs[1].env[i]  op == IF d = 0 THEN w ELSE "sum" IN
            /\ brs' = [brs EXCEPT ![1].claims = Append(@, d = 0)]
            /\ prog' = Append(prog, St(op, 1, <<i - 1>>, [c |-> SumOf(o) + d]))
(* two false claims whose errors cancel: sums off by +d and -d; or columns x and -x claimed zero *)
CancelSums ==
    /\ Truth # "true" /\ brs[1].env # <<>>
    /\ \E i, j \in {Rnd(1..Len(brs[1].env))} : \E d \in {Rnd({1, 2})} :
            /\ brs' = [brs EXCEPT ![1].claims = @ \o <<FALSE, FALSE>>]
            /\ prog' = prog \o << St("sum", 1, <<i - 1>>, [c |-> SumOf(brs[1].env[i]) + d]),
                                  St("sum", 1, <<j - 1>>, [c |-> SumOf(brs[1].env[j]) - d]) >>
CancelZeros ==
    /\ Truth # "true" /\ brs[1].env # <<>>
    /\ \E i \in {Rnd(1..Len(brs[1].env))} :
        LET env == brs[1].env IN
            /\ ~IsZero(env[i])
            /\ \E o \in {TLCEval(Apply(env, "muls", i, i, -1))} :
                 /\ brs' = [brs EXCEPT ![1].env = Append(@, o), ![1].claims = @ \o <<FALSE, FALSE>>]
                 /\ prog' = prog \o << St("muls", 1, <<i - 1>>, [c |-> -1]),
                                       St("zero", 1, <<i - 1>>, NoP), St("zero", 1, <<Len(env)>>, NoP) >>

AllTrue(cl) == \A i \in 1..Len(cl) : cl[i]

(* ------------------------------------------------------- emitted cases *)
Probe(b, i) ==
    LET env == brs[b].env  o == env[i]
        ok == \A k \in 1..i : env[k].bnd < 30000
    IN [br |-> b - 1, at |-> i - 1, nv |-> o.nv, rows |-> o.rows, ml |-> o.ml,
        pts |-> {[x |-> x, p |-> Val(env, i, x), v |-> ValV(env, i, x)] :
                    x \in {TLCEval([k \in 1..o.nv |-> Rnd((-1)..2)]) : q \in IF ok THEN 1..2 ELSE {}}}]
Probes == LET RECURSIVE Q(_, _)
              Q(b, i) == IF b > Len(brs) THEN <<>>
                         ELSE IF i > Len(brs[b].env) THEN Q(b + 1, 1)
                         ELSE <<Probe(b, i)>> \o Q(b, i + 1)
          IN Q(1, 1)
SameTr == [b \in 1..Len(brs) |-> brs[b].tr = brs[1].tr]
Hosts  == [b \in 1..Len(brs) |-> Len(brs[b].claims)]
EvalCase == [steps |-> prog, probes |-> Probes, same |-> SameTr, claims |-> Hosts]
ClaimCase == [in |-> <<>>, steps |-> prog, outs |-> <<>>, embs |-> <<"id">>,
              expect |-> IF AllTrue(brs[1].claims) THEN "accept" ELSE "reject",
              g |-> "prog", nclaims |-> Len(brs[1].claims)]

HasComm == \E k \in 1..Len(brs[1].tr) : brs[1].tr[k][1] = "comm"
Finish ==
    /\ ops >= MaxOps /\ HasComm
    /\ PrintT("CASE " \o ToJson(IF Mode = "eval" THEN EvalCase ELSE ClaimCase))
    /\ phase' = "done" /\ UNCHANGED <<brs, prog, ops>>
Again == phase = "done" /\ phase' = "run" /\ brs' = <<Fresh>> /\ prog' = <<>> /\ ops' = 0

(* one randomly chosen kind of step per transition (weights by repetition) *)
Kinds == IF Mode = "eval"
         THEN <<"commit", "public", "rows", "bin", "bin", "bin", "bin", "un", "un", "un", "chal", "absorb",
                "read", "copy", "claim">>
         ELSE <<"commit", "public", "rows", "rows", "bin", "bin", "bin", "un", "un", "chal", "absorb",
                "claim", "claim", "claim", "lie">>
Step == /\ phase = "run" /\ ops < MaxOps
        /\ \E k \in {IF brs[1].env = <<>> \/ (Mode = "claims" /\ ops < 2) THEN "commit" ELSE Kinds[Rnd(1..Len(Kinds))]} :
             \/ k = "commit" /\ Commit
             \/ k = "public" /\ Public
             \/ k = "rows"   /\ CommitRows
             \/ k = "bin"    /\ Binary
             \/ k = "un"     /\ Unary
             \/ k = "chal"   /\ Challenge
             \/ k = "absorb" /\ Absorb
             \/ k = "read"   /\ Read
             \/ k = "copy"   /\ (Copy \/ (Len(brs) > 1 /\ Read))
             \/ k = "claim"  /\ (ZeroClaim \/ SumClaim)
             \/ k = "lie"    /\ (IF Truth = "true" THEN SumClaim ELSE IF Rnd(1..3) = 1 THEN CancelSums \/ CancelZeros ELSE SumClaim)
        /\ ops' = ops + 1 /\ UNCHANGED phase
Late == phase = "run" /\ ops >= MaxOps /\ ~HasComm /\ Commit /\ UNCHANGED <<ops, phase>>

Next == Step \/ (phase = "run" /\ Finish) \/ Late \/ Again
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------- properties *)
Last(b) == brs[b].env[Len(brs[b].env)]
(* what every object denotes is what its rows say, on both sides *)
RowsAgree == \A b \in 1..Len(brs) : brs[b].env # <<>> =>
    LET i == Len(brs[b].env)  o == Last(b) IN
    /\ Len(o.rows) = Pow2(o.nv)
    /\ \A k \in 0..(Pow2(o.nv) - 1) :
         /\ Val(brs[b].env, i, BoolPt(k, o.nv)) = o.rows[k + 1]
         /\ ValV(brs[b].env, i, BoolPt(k, o.nv)) = o.rows[k + 1]
(* away from the hypercube the two sides agree unless a product was extended *)
SidesAgree == \A b \in 1..Len(brs) : brs[b].env # <<>> =>
    LET i == Len(brs[b].env)  o == Last(b) IN
    (o.ml /\ \A k \in 1..i : brs[b].env[k].bnd < 30000) =>
        \A q \in 1..2 : LET x == [k \in 1..o.nv |-> ((k * q) % 4) - 1] IN Val(brs[b].env, i, x) = ValV(brs[b].env, i, x)
(* extending a column multiplies its sum by the number of copies *)
SumScales == \A b \in 1..Len(brs) : brs[b].env # <<>> =>
    LET o == Last(b) IN o.op \in {"incf", "incb"} => SumOf(o) = Pow2(o.c) * SumOf(brs[b].env[o.a[1]])
=============================================================================
