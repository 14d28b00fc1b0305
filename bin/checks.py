"""One function per property."""
import json
import os
import random
from lib import ToolError

SMALL = dict(RandV=4, Sizes={1, 2, 4, 8}, Ranges={4, 8}, CrossMax=4)
BIG = dict(RandV=12, Sizes={16, 32, 64}, Ranges={16, 64}, CrossMax=16)
HUGE = dict(RandV=0, Sizes={512}, Ranges={8}, CrossMax=32)       # values that occur hundreds of times
SLOW = {"bag_disjoint", "join_reduction", "presc_perm", "final_join", "final_join_adv"}    # and 128 rows at most for these
IOP_CONST = dict(SMALL, VMax=2, MMax=2, CheatKeep=1, CheatMax=2, MaxEdits=2, EmitOn=True, Cheating=0, CheatDeep=False)
INVS = ["Sound", "Complete", "Meaning"]


# gadgets whose exhaustive adversary is too large for a quick check
LIES_BIG = {"join_reduction", "bag_disjoint_adv", "group_by", "set_union"}
LIES_DEEP = {"inclusion", "supp", "strict_sort", "no_zeros", "set_diff"}


def iop(gads, quick=1200, traces=60):
    def run(ctx):
        scale = 8 if ctx.thorough else 1
        for g in gads:
            c = dict(IOP_CONST, Gads={g}, Random=False)
            exh = ctx.cases(ctx.tlc("Iop", c, INVS, name="exh-" + g))
            c = dict(c, Random=True)
            rnd = ctx.cases(ctx.tlc("Iop", c, INVS, simulate=traces * scale, depth=150, name="rnd-" + g))
            exh = ctx.pick(exh, quick * scale, g)
            ctx.conform("iop", exh, "rel", label="exh-" + g)
            ctx.conform("iop", rnd, "rel", label="rnd-" + g)
            ctx.conform("iop", ctx.pick(rnd, 200 * scale, g) + ctx.pick(exh, 200 * scale, g), "dbg", label=g)
            ctx.conform("iop", ctx.pick(rnd, 24 * scale, g + "k"), "rel", pcs="kzg", label=g)
            lies(ctx, g, quick, traces, scale)
            for label, size, n in (("big", BIG, 2 * scale), ("huge", HUGE, 1)):
                c = dict(c, **size)
                if label == "huge" and g in SLOW:
                    c["Sizes"] = {128}
                cases = ctx.cases(ctx.tlc("Iop", c, INVS, simulate=n, depth=150, name="%s-%s" % (label, g), timeout=1500))
                ctx.conform("iop", cases, "rel", label="%s-%s" % (label, g))
                ctx.conform("iop", ctx.pick(cases, 4 * scale, g), "rel", pcs="kzg", label="%s-%s" % (label, g))
    return run


def lies(ctx, g, quick, traces, scale):
    """Provers that commit something else than their honest advice: the specification says none succeeds."""
    c = dict(IOP_CONST, Gads={g}, Cheating=1, Random=False, CheatDeep=ctx.thorough and g in LIES_DEEP)
    told = []
    if ctx.thorough or g not in LIES_BIG:
        told = ctx.pick(ctx.cases(ctx.tlc("Iop", c, INVS, name="lies-" + g, timeout=1500)), quick * scale, g + "l")
    c = dict(c, Cheating=2, Random=True, CheatDeep=False)
    told += ctx.cases(ctx.tlc("Iop", c, INVS, simulate=2 * traces * scale, depth=150, name="rlies-" + g))
    if told:
        ctx.conform("iop", told, "rel", label="lies-" + g)


PLAN_CONST = dict(SMALL, VMax=2, MMax=2, CheatKeep=1, CheatMax=2, MaxCalls=4, MaxEdits=2, EmitOn=True)


def plans(first, num, keep=("accept", "reject")):
    """several gadgets in one proof, on shared columns and on the tables earlier ones returned"""
    def run(ctx):
        k = 8 if ctx.thorough else 1
        for label, calls, n, size in (("plan", 4, num, SMALL), ("plan6", 6, num // 3, SMALL), ("planbig", 4, num // 6, BIG)):
            c = dict(PLAN_CONST, First=first, MaxCalls=calls, MaxEdits=0 if keep == ("accept",) else 2, **size)
            cases = ctx.cases(ctx.tlc("Plan", c, ["Sound", "Complete"], simulate=n * k, depth=100, name=label))
            cases = [x for x in cases if any('"expect":"%s"' % e in x for e in keep)]
            ctx.conform("iop", cases, "rel", label=label)
            ctx.conform("iop", ctx.pick(cases, 60 * k), "dbg", label=label)
            ctx.conform("iop", ctx.pick(cases, 8 * k), "rel", pcs="kzg", label=label)
    return run


def both(*runs):
    def run(ctx):
        for r in runs:
            r(ctx)
    return run


CHECKS = {
    "C13": iop(["multitool", "bag_eq", "bag_sum"]),
    "C14": iop(["inclusion", "inclusion_adv"]),
    "C15": iop(["no_zeros", "sel_valid"]),
    "C16": iop(["presc_perm"]),
    "C17": iop(["strict_sort"]),
    "C18": iop(["supp", "supp_adv"]),
    "C19": iop(["bag_disjoint", "bag_disjoint_adv", "set_disjoint"]),
    "C20": iop(["set_union", "set_diff", "set_intersect"]),
    "C21": iop(["index_transform"]),
    "C22": both(iop(["cross_product"]), plans({"cross_product"}, 30)),
    "C23": iop(["join_reduction"]),
    "C24": both(iop(["final_join", "final_join_adv"]), plans({"final_join", "final_join_adv"}, 30)),
    "C25": both(iop(["group_by"]), plans({"group_by"}, 30)),
}

HOOK_COMMITS = ["d9224c50e43417b057d7b3d7d2322a7581cbc18c"]


def prog_consts(mode, ops, truth="mixed", nv=3, deg=4):
    return dict(Mode=mode, MaxOps=ops, MaxNv=nv, MaxDeg=deg, Truth=truth)


PROG_INVS = ["RowsAgree", "SidesAgree", "SumScales"]


def prog_invs(nv):
    return PROG_INVS if nv < 5 else ["SumScales"]        # what the rows of large columns say is left to the replay


def tracker_eval(only):
    """C01 judges the prover's objects, C02 the mirror on the verifier; both replay the same programs."""
    def run(ctx):
        k = 8 if ctx.thorough else 1
        for ops, num, nv, deg in ((8, 25 * k, 2, 4), (16, 25 * k, 3, 4), (30, 10 * k, 3, 3), (14, 4 * k, 6, 3)):
            cases = ctx.cases(ctx.tlc("Prog", prog_consts("eval", ops, nv=nv, deg=deg), prog_invs(nv), simulate=num, depth=400, name="eval%d" % ops))
            ctx.conform("tracker", cases, "rel", label="%d" % ops, extra=["--only", only])
            ctx.conform("tracker", ctx.pick(cases, 100 * k), "dbg", label="%d" % ops, extra=["--only", only])
            ctx.conform("tracker", ctx.pick(cases, 24 * k), "rel", pcs="kzg", label="%d" % ops, extra=["--only", only])
    return run


CHECKS["C01"] = tracker_eval("prover")
CHECKS["C02"] = tracker_eval("verifier")


def claims(truths, deep):
    def run(ctx):
        k = 8 if ctx.thorough else 1
        for truth in truths:
            for ops, num, nv, deg in ((8, 20 * k, 2, 4), (16, 20 * k, 3, 5), (30, 8 * k, 3, deep), (15, 4 * k, 6, 3)):
                cases = ctx.cases(ctx.tlc("Prog", prog_consts("claims", ops, truth, nv, deg), prog_invs(nv), simulate=num, depth=400, name="%s%d" % (truth, ops)))
                ctx.conform("iop", cases, "rel", label="%s%d" % (truth, ops))
                ctx.conform("iop", ctx.pick(cases, 100 * k), "dbg", label="%s%d" % (truth, ops))
                ctx.conform("iop", ctx.pick(cases, 24 * k), "rel", pcs="kzg", label="%s%d" % (truth, ops))
    return run


ANY_FIRST = {"cross_product", "final_join", "group_by", "index_transform", "supp", "bag_sum", "multitool", "set_union"}
CHECKS["C04"] = both(claims(["true"], 12), plans(ANY_FIRST, 40, ("accept",)))
CHECKS["C05"] = both(claims(["mixed", "false"], 8), plans(ANY_FIRST, 60, ("reject",)))


# ------------------------------------------------------------- sumcheck, zerocheck
P15 = 32749
SC_INV = ["Complete", "Rejects", "Residual", "RoundSound"]
SC_MODEL = [("deg1", 3, 2, "Deg1", True, 12), ("deg2", 3, 1, "Deg2", True, 0), ("deg3", 5, 1, "Deg3", True, 3), ("honest", 5, 2, "Deg3", False, 20)]
SC_MODEL_DEEP = SC_MODEL + [("deg1x2", 3, 2, "Deg1", True, 120), ("deg2x2", 3, 2, "Deg2", True, 40), ("deg3x1", 5, 1, "Deg3", True, 60), ("honest2", 5, 3, "Deg3", False, 100)]


def sumcheck_model(ctx):
    for nm, p, nv, sh, ch, ps in (SC_MODEL_DEEP if ctx.thorough else SC_MODEL):
        ctx.tlc("SumCheckMC", dict(P=p, NumVars=nv, Cheating=ch, PolySample=ps, Shapes="<- " + sh), SC_INV, name="model-" + nm, timeout=1500)


def sc_runs(ctx, kinds, num, nv, deg, big, label, variants=("rel",)):
    cases = ctx.cases(ctx.tlc("SumCheckGen", dict(P=P15, Kinds=kinds, MaxNv=nv, MaxDeg=deg, BigDeg=big), simulate=num, depth=21, name="gen-" + label))
    for v in variants:
        rec = os.path.join(ctx.work, "rec-%s-%s.ndjson" % (label, v))
        ctx.conform("sumcheck", cases, v, label=label, extra=["--rec", rec])
        if v == "rel":
            ctx.validate("SumCheckTrace", rec, label, dict(P=P15, NumVars=0, Shapes=set(), Cheating=False, PolySample=0), ["TResidual"])


def c08(ctx):
    k = 8 if ctx.thorough else 1
    sumcheck_model(ctx)
    sc_runs(ctx, {"inter", "prove"}, 60 * k, 3, 4, set(), "small")
    sc_runs(ctx, {"inter", "prove"}, 10 * k, 2, 6, {12, 19, 20, 21, 32, 33, 34, 36}, "big")
    sc_runs(ctx, {"fr"}, 60 * k, 4, 5, {12, 19, 20, 21, 32, 33, 34, 36}, "fr", ("rel", "dbg"))
    sc_runs(ctx, {"inter", "prove"}, 4 * k, 6, 2, set(), "wide")
    sc_runs(ctx, {"fr"}, 4 * k, 9, 3, set(), "fr9")


def c09(ctx):
    k = 8 if ctx.thorough else 1
    sumcheck_model(ctx)
    sc_runs(ctx, {"zc"}, 60 * k, 3, 4, set(), "zc")
    sc_runs(ctx, {"zcfr"}, 100 * k, 4, 5, {12, 19, 20, 32, 34}, "zcfr", ("rel", "dbg"))
    sc_runs(ctx, {"zc"}, 4 * k, 6, 2, set(), "wide")
    sc_runs(ctx, {"zcfr"}, 4 * k, 9, 3, set(), "zcfr9")


CHECKS["C08"] = c08
CHECKS["C09"] = c09


# ------------------------------------------------------------- polynomial commitments
def kzg_runs(ctx, what, num, nv, label, variants=("rel", "dbg")):
    cases = ctx.cases(ctx.tlc("KzgGen", dict(P=P15, MaxN=nv, What=what), simulate=num, depth=21, name="gen-" + label))
    for v in variants:
        ctx.conform("pcs", cases, v, label=label)


def c10(ctx):
    k = 8 if ctx.thorough else 1
    inv = ["Complete", "Binding", "Unique"]
    ctx.tlc("KzgMC", dict(P=3, N=1, Sample=0), inv, name="model-1")
    ctx.tlc("KzgMC", dict(P=3, N=2, Sample=8 if k == 1 else 24), inv, name="model-2", seed=ctx.seed, timeout=1500)
    kzg_runs(ctx, "single", 50 * k, 3, "single")
    kzg_runs(ctx, "single", 10 * k, 5, "single5")
    kzg_runs(ctx, "single", 4 * k, 8, "single8")


def c11(ctx):
    k = 8 if ctx.thorough else 1
    inv = ["Folds", "Residual", "Merged", "Sound"]
    s = 4 if k == 1 else 8
    ctx.tlc("KzgBatch", dict(P=5, N=1, K=3, Ell=2, Sample=s, TFirst=False), inv, name="model-3", seed=ctx.seed, timeout=1500)
    ctx.tlc("KzgBatch", dict(P=7, N=2, K=2, Ell=1, Sample=s, TFirst=False), inv, name="model-2", seed=ctx.seed, timeout=1500)
    ctx.tlc("KzgBatch", dict(P=5, N=1, K=3, Ell=2, Sample=s, TFirst=True), ["Caught"], name="model-tfirst", seed=ctx.seed, expect_violation="Caught")
    kzg_runs(ctx, "batch", 50 * k, 3, "batch")
    kzg_runs(ctx, "batch", 10 * k, 5, "batch5")
    kzg_runs(ctx, "batch", 4 * k, 8, "batch8")


CHECKS["C10"] = c10
CHECKS["C11"] = c11


# ------------------------------------------------------------- polynomial arithmetic
def c12(ctx):
    k = 8 if ctx.thorough else 1
    for nv, ops, num in ((2, 12, 150 * k), (3, 25, 150 * k), (4, 40, 80 * k), (7, 14, 40 * k)):
        label = "nv%d" % nv
        cases = ctx.cases(ctx.tlc("PolyArith", dict(P=P15, MaxNv=nv, MaxOps=ops, Kinds="<- K25"), ["Laws"], simulate=num, depth=ops + 1, name="gen-" + label))
        for v in ("rel", "dbg"):
            rec = os.path.join(ctx.work, "rec-%s-%s.ndjson" % (label, v))
            ctx.conform("arith", cases, v, label=label, extra=["--rec", rec])
            if v == "rel":
                ctx.validate("PolyArithTrace", rec, label, dict(P=P15))
    cases = ctx.cases(ctx.tlc("PolyArith", dict(P=P15, MaxNv=1, MaxOps=6, Kinds="<- KBig"), ["Laws"], simulate=20 * k, depth=7, name="gen-big"))
    ctx.conform("arith", cases, "rel", label="big")


CHECKS["C12"] = c12


# ------------------------------------------------------------- the compiled proof under attack
PROTO = dict(Rounds=2, AbsorbComms=True, AbsorbSums=True, AbsorbMsgs=True, AbsorbEvals=True, FinalCheck=True,
             DerivedPoint=True, CheckOpening=True, MaxTampers=4, Adaptive=True, EmitOn=False)
# switching a safeguard off must let TLC find an attack: the model is not vacuous
PROTO_DEVS = (("AbsorbComms", "SoundButForged"), ("AbsorbSums", "SoundButForged"), ("AbsorbMsgs", "Sound"), ("AbsorbEvals", "Sound"),
              ("DerivedPoint", "Sound"), ("CheckOpening", "Bound"), ("FinalCheck", "BoundToPoly"))


def attacks(ctx, tampers):
    """every attack of the model without adaptive moves, with the verdict of the specification and of its known deviation"""
    res = {}
    for fc in (True, False):
        c = dict(PROTO, Adaptive=False, MaxTampers=tampers, EmitOn=True, FinalCheck=fc)
        for l in ctx.cases(ctx.tlc("Protocol", c, ["Complete", "Emit"] + (["Bound", "BoundToPoly"] if fc else []), name="attacks-%s" % fc)):
            a = json.loads(l)
            v = a.pop("expect")
            res.setdefault(json.dumps(a, sort_keys=True), {})[fc] = v
    return [dict(json.loads(a), expect=v[True], design=v[False]) for a, v in sorted(res.items())]


def n_tampers(a):
    return sum(a[k] != "h" for k in ("hist", "comm", "claims", "sum", "aux", "shape", "point", "open")) + sum(m != "h" for m in a["msgs"])


def honest_programs(ctx, progs, gadgets, label, nv=3, deg=4):
    """programs whose claims are true, and gadget runs whose statements are true"""
    cases = ctx.cases(ctx.tlc("Prog", prog_consts("claims", 12, "true", nv, deg), PROG_INVS, simulate=3 * progs, depth=400, name="progs-" + label))
    res = ctx.pick(cases, progs, label)
    for g in gadgets:
        c = dict(IOP_CONST, Gads={g}, Random=True)
        rnd = [x for x in ctx.cases(ctx.tlc("Iop", c, INVS, simulate=30, depth=150, name="%s-%s" % (label, g))) if '"expect":"accept"' in x]
        res += ctx.pick(rnd, max(2, progs // 8), g)
    return [json.loads(x) for x in res]


def c06(ctx):
    k = 8 if ctx.thorough else 1
    deep = 9 if ctx.thorough else 4
    ctx.tlc("Protocol", dict(PROTO, MaxTampers=deep), ["Complete", "Bound", "Sound", "BoundToPoly"], properties=["Decides"], name="model", timeout=1500)
    ctx.tlc("Protocol", dict(PROTO, MaxTampers=deep, FinalCheck=False), ["Complete", "Bound", "SoundButForged"], properties=["Decides"], name="model-design", timeout=1500)
    for dev, inv in PROTO_DEVS:
        ctx.tlc("Protocol", dict(PROTO, **{dev: False, "MaxTampers": 3}), [inv], name="without-" + dev, expect_violation=inv)
    atks = attacks(ctx, 3)
    one = [a for a in atks if n_tampers(a) <= 1]
    many = [a for a in atks if n_tampers(a) > 1]
    rnd = random.Random("C06/%d" % ctx.seed)
    for label, progs, gads, more, variant, pcs in (("mock", 60 * k, ["multitool", "bag_eq", "inclusion_adv", "strict_sort", "group_by"], 40, "rel", "mock"),
                                                   ("dbg", 16, ["multitool"], 20, "dbg", "mock"),
                                                   ("kzg", 8 * k, ["multitool"], 12, "rel", "kzg")):
        cases = honest_programs(ctx, progs, gads, label)
        for c in cases:
            c["atks"] = one + one + rnd.sample(many, min(more, len(many)))
        ctx.conform("protocol", cases, variant, pcs=pcs, label=label)


CHECKS["C06"] = c06


# ------------------------------------------------------------- transcripts
TRS = dict(Level="raw", MaxLen=2, Two=True, Dev="none", Mode="all")


def c07(ctx):
    k = 8 if ctx.thorough else 1
    ctx.tlc("Transcript", TRS, ["Binding", "Monotone"], name="model-raw", timeout=1500)
    ctx.tlc("Transcript", dict(TRS, Level="tracker", MaxLen=3), ["Binding", "Monotone"], name="model-tracker", timeout=1500)
    for dev, n in (("skipempty", 2), ("nolabel", 2), ("first", 2), ("late", 2), ("concat", 3), ("deaf", 3)):
        ctx.tlc("Transcript", dict(TRS, Dev=dev, MaxLen=n), ["Binding"], name="dev-" + dev, expect_violation="Binding")
    for level, n, exe in (("raw", 3, 9261), ("tracker", 4 if ctx.thorough else 3, 6000)):
        exh = ctx.cases(ctx.tlc("Transcript", dict(TRS, Level=level, Two=False, MaxLen=n, Mode="all"), ["Emit"], name="all-" + level))
        rnd = ctx.cases(ctx.tlc("Transcript", dict(TRS, Level=level, MaxLen=12, Mode="random"), ["Emit", "Binding"], simulate=150 * k, depth=22, name="rnd-" + level))
        # one table of histories and challenges over all of them: one thread
        ctx.conform("transcript", ctx.pick(exh, exe) + rnd, "rel", threads=1, label=level)
        if level == "tracker":
            ctx.conform("transcript", ctx.pick(exh, 250 * k) + ctx.pick(rnd, 250 * k), "rel", pcs="kzg", threads=1, label=level)
    rnd = ctx.cases(ctx.tlc("Transcript", dict(TRS, Level="long", MaxLen=12, Mode="random"), ["Emit", "Binding"], simulate=150 * k, depth=22, name="rnd-long"))
    ctx.conform("transcript", rnd, "rel", threads=1, label="long")
    for nv, num in ((4, 40), (8, 4)):
        c = dict(P=P15, MaxNv=nv, MaxDeg=4, Kinds={"pair"}, BigDeg=set())
        cases = ctx.cases(ctx.tlc("SumCheckGen", c, simulate=num * k, depth=22, name="pairs%d" % nv))
        ctx.conform("transcript", cases, "rel", label="pairs%d" % nv)
    ctx.conform("transcript", ctx.pick(cases, 100), "dbg", label="pairs")
    # whole proofs: an adversary who makes choices after a challenge that should have come later
    for label, progs, variant, pcs in (("mock", 100 * k, "rel", "mock"), ("kzg", 10 * k, "rel", "kzg")):
        ctx.conform("protocol", [dict(c, atks=[]) for c in honest_programs(ctx, progs, ["multitool"], label)], variant, pcs=pcs, label=label)


CHECKS["C07"] = c07


# ------------------------------------------------------------- advice helpers
def c26(ctx):
    k = 8 if ctx.thorough else 1
    small = ctx.cases(ctx.tlc("Advice", dict(Mode="all", File=""), name="small"))
    small = ctx.pick(small, 3000 if ctx.thorough else 400)
    rnd = ctx.cases(ctx.tlc("Advice", dict(Mode="random", File=""), simulate=25 * k, depth=22, name="rnd"))
    for label, cases, variant in (("small", small, "rel"), ("random", rnd, "rel"), ("dbg", ctx.pick(rnd, 100 * k), "dbg")):
        rec = os.path.join(ctx.work, "rec-%s.ndjson" % label)
        ctx.conform("advice", cases, variant, label=label, extra=["--rec", rec])
        ctx.validate("Advice", rec, label, dict(Mode="judge"))


CHECKS["C26"] = c26
