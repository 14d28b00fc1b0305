"""Shared machinery of the checks: run TLC, build and run the conformance harness, write evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery itself failed (never a verdict about the code)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = 0
        self.tlc_runs = []
        self.replayed = 0          # behaviours/traces replayed in, or recorded from, the real code
        self.samples = []
        self.stats = {}
        self.violations = []       # (why, detail)
        self.known = {}            # id -> text
        self.bins = {}
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------------- build
    def build(self, variant):
        """variant 'rel': debug assertions off in the code under test; 'dbg': on."""
        if variant in self.bins:
            return self.bins[variant]
        env = dict(os.environ)
        env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="",
                   CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
                   RUSTFLAGS="--cfg zksql_verif -Awarnings", CARGO_INCREMENTAL="0")
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        for k in list(env):
            if k.startswith("CARGO_PROFILE_"):
                del env[k]
        # mtimes of a restored tree can fool cargo: always recompile the crate under test
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp) and variant == "rel":
            for d in os.listdir(fp):
                if d.startswith("zk_sql-") or d.startswith("conform-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "-q"]
        if variant == "dbg":
            cmd += ["--config", "profile.dev.package.zk_sql.debug-assertions=true"]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build against /repo:\n" + r.stdout[-4000:])
        dst = os.path.join(self.work, "conform-" + variant)
        shutil.copy2(os.path.join(TARGET, "debug", "conform"), dst)
        self.bins[variant] = dst
        return dst

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, consts, invariants=(), properties=(), spec="Spec", simulate=None, depth=None,
            workers=None, timeout=600, deadlock=False, seed=None, constraint=None, name=None, view=None,
            expect_violation=None, extra_modules=None, postcondition=None):
        """Run TLC.  Returns (stdout lines).  Any violated invariant of our own model is a ToolError unless
        expect_violation names it (used to show that a named deviation of the model is caught)."""
        name = name or module
        d = os.path.join(self.work, "tlc-%s-%d" % (name, len(self.tlc_runs)))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for fn, txt in (extra_modules or {}).items():
            p = os.path.join(d, fn)
            if os.path.islink(p):
                os.unlink(p)
            open(p, "w").write(txt)
        cfg = ["CONSTANTS"] + ["  %s %s" % (k, v if str(v).startswith("<-") else "= " + tla(v)) for k, v in consts.items()] if consts else []
        cfg += ["SPECIFICATION " + spec]
        cfg += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if view:
            cfg.append("VIEW " + view)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        open(os.path.join(d, "mc.cfg"), "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "st"), "-config", "mc.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                    "-seed", str(seed if seed is not None else self.seed)]
        else:
            cmd += ["-workers", str(workers or 8)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd.append(module + ".tla")
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % name)
        out = r.stdout
        lines = out.splitlines()
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        allm = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        sim = re.search(r"The number of states generated: ([\d,]+)", out)
        st = tr = 0
        if allm and not simulate:
            tr, st = (int(x.replace(",", "")) for x in allm[-1])
        elif sim:
            st = tr = int(sim.group(1).replace(",", ""))
        viol = re.search(r"Invariant (\w+) is violated|(Action property|Temporal properties) .*violated|property (\w+) is violated|Assumption.*is false|The postcondition", out)
        run = {"module": module, "name": name, "mode": "simulate" if simulate else "exhaustive", "states": st,
               "transitions": tr, "invariants": list(invariants) + list(properties), "wall_s": round(time.time() - t, 1),
               "constants": {k: str(v)[:60] for k, v in consts.items()}}
        self.tlc_runs.append(run)
        self.states += st
        self.transitions += tr
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        if expect_violation:
            if not viol or expect_violation not in out:
                raise ToolError("model deviation %s was not caught by %s:\n%s" % (name, expect_violation, out[-1500:]))
            run["expected_violation"] = expect_violation
            return lines
        if r.returncode != 0 or "Error:" in out:
            txt = "\n".join(l for l in lines if "CASE " not in l)
            raise ToolError("TLC failed on %s (exit %d):\n%s" % (name, r.returncode, txt[-3000:]))
        return lines

    @staticmethod
    def cases(lines, tag="CASE"):
        res = set()
        pre = '"%s ' % tag
        for l in lines:
            if l.startswith(pre):
                res.add(json.loads(l)[len(tag) + 1:])
        return sorted(res)

    def pick(self, cases, n, salt=""):
        """deterministic, seeded, verdict-stratified sample"""
        if len(cases) <= n:
            return list(cases)
        rnd = random.Random("%s/%d/%s" % (self.prop, self.seed, salt))
        groups = {}
        for c in cases:
            m = re.search(r'"expect":"(\w+)"', c)
            # near misses first: runs in which exactly one claim fails, by which one it is
            f = re.search(r'"fails":\[([0-9]*)\]', c)
            groups.setdefault((m.group(1) if m else "", f.group(1) if f else "many"), []).append(c)
        res = []
        share = n // len(groups)
        left = n
        for i, (k, g) in enumerate(sorted(groups.items(), key=lambda x: len(x[1]))):
            take = min(len(g), left // (len(groups) - i))
            res += rnd.sample(g, take)
            left -= take
        return sorted(res)

    # -------------------------------------------------------------- harness
    def conform(self, cmd, cases, variant="rel", pcs="mock", threads=8, timeout=700, label="", extra=(), count=True):
        if not cases:
            raise ToolError("no cases for " + cmd + " " + label)
        exe = self.build(variant)
        base = os.path.join(self.work, "%s-%s-%s-%s" % (cmd, label or "all", variant, pcs))
        with open(base + ".jsonl", "w") as f:
            for c in cases:
                f.write((c if isinstance(c, str) else json.dumps(c)) + "\n")
        argv = [exe, cmd, "--in", base + ".jsonl", "--out", base + ".out", "--seed", str(self.seed),
                "--pcs", pcs, "--threads", str(threads)] + list(extra)
        try:
            r = subprocess.run(argv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("replay of %d cases (%s %s) did not finish in %d s, though no single case hangs" % (len(cases), cmd, label, timeout))
        if r.returncode == 3:
            self.violation("the code under test hangs on a case of %s %s" % (cmd, label), {"file": base + ".jsonl"})
            return {}
        if r.returncode == 2:
            raise ToolError("harness: " + (r.stderr or "")[-2000:])
        if r.returncode != 0:
            self.violation("the code under test aborted the process (exit %d) while replaying %s %s: %s" %
                           (r.returncode, cmd, label, (r.stderr or "")[-300:]), {"file": base + ".jsonl"})
            return {}
        rep = json.load(open(base + ".out"))
        for v in rep["violations"]:
            self.violation("[%s %s/%s] %s" % (cmd + " " + label, variant, pcs, v["why"]), {"cmd": cmd, "variant": variant, "pcs": pcs, "case": v["case"], "why": v["why"]})
        for k in rep["known"]:
            self.known[k["id"]] = k["why"]
        if count:
            self.replayed += rep["cases"]
        for k, v in rep["stats"].items():
            key = "%s.%s" % (cmd, k)
            self.stats[key] = self.stats.get(key, 0) + v
        for s in rep["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        return rep

    def validate(self, module, rec, label, consts, invariants=(), timeout=400):
        """Check the runs a replay recorded (`--rec rec`) against a trace specification: one initial state per run."""
        if not os.path.exists(rec):
            return 0
        lines = [json.loads(l) for l in open(rec)]
        if not lines:
            return 0
        f = os.path.join(self.work, "trace-%s.ndjson" % label)
        with open(f, "w") as o:
            for l in lines:
                o.write(json.dumps(l["rec"]) + "\n")
        out = self.tlc(module, dict(consts, File=f), invariants, spec="TSpec", name="trace-" + label, timeout=timeout)
        bad = [json.loads(x) for x in self.cases(out, "BAD")]
        for b in bad:
            if b["what"].startswith("SPEC"):
                raise ToolError("the specification contradicts itself on run %d of %s: %s" % (b["i"], f, b["what"]))
            case = lines[b["i"] - 1]["case"]
            self.violation("[%s] recorded run is no behaviour of the specification: %s" % (label, b["what"]),
                           {"case": case, "run": lines[b["i"] - 1]["rec"], "why": b["what"]})
        done = len(set(self.cases(out, "DONE")))
        if done + len({b["i"] for b in bad}) < len(lines):
            raise ToolError("%s validated only %d of %d recorded runs" % (module, done, len(lines)))
        self.stats["validated." + label] = self.stats.get("validated." + label, 0) + len(lines)
        return len(lines)

    def violation(self, why, detail):
        self.violations.append((why, detail))

    # ------------------------------------------------------------- evidence
    def finish(self, level="model_checking"):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.replayed,
                "samples": self.samples or [{"note": "none"}],
                "tlc_runs": self.tlc_runs, "replay_stats": self.stats,
            },
            "violations": [w for w, _ in self.violations][:20],
            "known_findings": self.known,
            "wall_s": round(time.time() - self.t0, 1),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def known_findings():
    """known-findings.txt: lines 'known: property=<id> key=<key> <what>' and 'fixed: ...'"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res
