#!/usr/bin/env python3
"""Runs the check of one property.  See DESIGN.md.

  check.py C01             the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --replay FILE   executes a saved history again and validates it

Exit 0: the property held on everything explored.  1: VIOLATION lines on
stdout.  2: the machinery itself failed.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = os.environ.get("VERIF_TIER") or "quick"
THOROUGH = TIER == "thorough"
CORES = os.cpu_count() or 4
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(features=()):
    """Builds the harness against /repo as it is, and the TLC accelerators."""
    t = time.time()
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s && cargo build --offline --locked" % os.path.join(ROOT, "harness")
    r = subprocess.run(["bash", "-c", cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-6000:])
    if "rc" in features:
        env2 = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, "rc"))
        r = subprocess.run(["bash", "-c", cmd + " --no-default-features"], env=env2,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build without `sync`:\n" + r.stdout[-6000:])
    jd = os.path.join(TARGET, "java")
    os.makedirs(jd, exist_ok=True)
    r = subprocess.run(["javac", "-cp", TLAJAR, "-d", jd, os.path.join(ROOT, "java", "VBits.java")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("javac: " + r.stdout)
    log("build %.1fs" % (time.time() - t))


def vh(rc=False):
    return os.path.join(TARGET, "rc" if rc else "", "debug", "vh")


def tlc(module, cfg, env, work, workers=1, xmx="2g", timeout=840, extra=()):
    meta = os.path.join(work, "meta_%s_%d" % (module, time.monotonic_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + xmx,
           "-Djava.io.tmpdir=" + work,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VBits",
           "-cp", ":".join([os.path.join(TARGET, "java"), TLAJAR, CMJAR]), "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s took more than %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left", out)
    ok = "Model checking completed. No error has been found." in out
    if not ok or not m:
        keep = [l for l in out.splitlines() if not l.startswith('"GEN') and not l.startswith("Parsing")]
        raise ToolError("TLC on %s:\n%s" % (module, "\n".join(keep)[:6000]))
    gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return out, gen, dist


def write_cfg(work, module, spec):
    """A configuration file for a model, from {init, next, consts, invariants, ...}."""
    path = os.path.join(work, "%s_%d.cfg" % (module, time.monotonic_ns()))
    with open(path, "w") as f:
        f.write("INIT %s\nNEXT %s\n" % (spec.get("init", "Init"), spec.get("next", "Next")))
        if "view" in spec:
            f.write("VIEW %s\n" % spec["view"])
        if spec.get("consts"):
            f.write("CONSTANTS\n")
            for k, v in spec["consts"].items():
                f.write("  %s %s %s\n" % (k, "<-" if isinstance(v, str) and v.startswith("@") else "=",
                                          v[1:] if isinstance(v, str) and v.startswith("@") else v))
        for i in spec.get("inv", []):
            f.write("INVARIANT %s\n" % i)
        for i in spec.get("props", []):
            f.write("PROPERTY %s\n" % i)
        for i in spec.get("constraints", []):
            f.write("CONSTRAINT %s\n" % i)
        f.write("CHECK_DEADLOCK FALSE\n")
    return path


class Run:
    def __init__(self, pid, prop):
        self.pid, self.prop = pid, prop
        self.work = os.path.join(TARGET, "work", "%s-%s-%d" % (pid, TIER, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.model_states = 0
        self.models, self.samples, self.violations, self.findings = [], [], [], []
        self.kinds = {}

    # ---- recording and replaying -------------------------------------------------
    def harness(self, args, what, rc=False, timeout=300, env=None):
        e = dict(os.environ, RUST_BACKTRACE="0")
        e.update(env or {})
        try:
            r = subprocess.run([vh(rc)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, env=e)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return "timeout", "", ""

    def record(self, domain, sel, count, length, rc=False, shards=CORES):
        prefix = os.path.join(self.work, "rec_%s_%s_%d_" % (domain, sel, rc))
        a = ["record", domain, sel, SEED, count, length, prefix, shards]
        code, out, er = self.harness(a, "record", rc)
        if code != 0:
            self.crashed(domain, sel, count, length, rc, code, er)
            return []
        return [prefix + "%d.ndjson" % s for s in range(shards)]

    def crashed(self, domain, sel, count, length, rc, code, er):
        """The process died or hung: find one history that does it on its own."""
        log("harness ended with %s on %s/%s; looking for the history" % (code, domain, sel))

        def one(i):
            c, _, e = self.harness(["record", domain, sel, SEED, count, length,
                                    os.path.join(self.work, "one_%d_" % i), 1], "one", rc, timeout=60,
                                   env={"VH_ONLY": str(i), "RAYON_NUM_THREADS": "1"})
            return i, c, e

        found = None
        with ThreadPoolExecutor(CORES) as ex:
            deadline = time.time() + 240
            it = iter(range(count))
            batch = True
            while batch and not found and time.time() < deadline:
                batch = [x for _, x in zip(range(CORES * 4), it)]
                for i, c, e in ex.map(one, batch):
                    if c != 0 and not found:
                        found = (i, c, e)
        i, c, e = found or (None, code, er)
        self.violation({"kind": "crash", "domain": domain, "sel": sel, "seed": SEED, "count": count, "len": length,
                        "index": i, "exit": str(c), "stderr": (e or er)[-2000:], "rc": rc,
                        "module": self.prop.get("trace")},
                       "the process ended with %s" % c)

    def replay(self, domain, ops, name, rc=False, shards=CORES):
        prefix = os.path.join(self.work, "rep_%s_%s_" % (domain, name))
        code, out, er = self.harness(["replay", domain, ops, prefix, shards], "replay", rc)
        if code != 0:
            self.violation({"kind": "crash", "domain": domain, "ops": open(ops).read()[:20000], "exit": str(code),
                            "stderr": er[-2000:], "rc": rc}, "the process ended with %s on generated histories" % code)
            return []
        return [prefix + "%d.ndjson" % s for s in range(shards)]

    # ---- models ------------------------------------------------------------------
    def model(self, m):
        cfg = write_cfg(self.work, m["module"], m)
        out, gen, dist = tlc(m["module"], cfg, m.get("env", {}), self.work,
                             workers=m.get("workers", 2), xmx=m.get("xmx", "3g"))
        self.model_states += dist
        self.states += dist
        self.transitions += gen
        self.models.append({"module": m["module"], "constants": {k: str(v) for k, v in m.get("consts", {}).items()},
                            "invariants": m.get("inv", []) + m.get("props", []), "distinct": dist, "generated": gen})
        files = []
        if m.get("gen"):
            ops = os.path.join(self.work, "gen_%d.ndjson" % time.monotonic_ns())
            n = 0
            with open(ops, "w") as f:
                for line in out.splitlines():
                    if line.startswith('"GEN '):
                        f.write(json.loads(line)[4:] + "\n")
                        n += 1
            if n == 0:
                raise ToolError("%s generated no histories" % m["module"])
            self.models[-1]["histories_generated"] = n
            files = self.replay(m["gen"], ops, "%s_%d" % (m["module"], time.monotonic_ns()),
                                shards=m.get("shards", CORES))
            return [(f, m.get("trace", self.prop["trace"]), m["gen"]) for f in files]
        return []

    # ---- validation --------------------------------------------------------------
    def validate(self, item):
        path, module, domain = item
        want = n = 0
        with open(path) as f:
            lines = f.readlines()
        if not lines:
            return
        traces = {}
        for l in lines:
            tr = json.loads(l)
            n += 1
            want += len(tr["ev"]) + 1
            traces[tr["id"]] = tr
        out, gen, dist = tlc(module, "Trace.cfg", {"TRACE": path}, self.work)
        bad = [json.loads(l) for l in out.splitlines() if l.startswith('"MISMATCH')]
        if not bad and dist != want:
            raise ToolError("%s: %d states for %d expected in %s" % (module, dist, want, path))
        self.states += dist
        self.transitions += gen
        self.traces += n
        self.events += want - n
        for tr in traces.values():
            for e in tr["ev"]:
                k = "%s:%s" % (e.get("op"), e["r"][0] if e.get("r") else "")
                self.kinds[k] = self.kinds.get(k, 0) + 1
        if len(self.samples) < 3:
            tr = traces[min(traces)]
            self.samples.append(json.dumps({"cfg": {k: v for k, v in tr["cfg"].items() if k != "cells"},
                                            "ev": tr["ev"][:3]})[:1500])
        for b in bad[:20]:
            m = re.match(r"MISMATCH trace=(\d+) event=(\d+) ", b)
            tr = traces[int(m.group(1))]
            k = int(m.group(2))
            self.violation({"kind": "history", "domain": domain, "module": module, "cfg": tr["cfg"],
                            "event": k, "ev": tr["ev"][:k], "cells": tr["cells"]},
                           b[b.rfind(" BECAUSE ") + 9:] if " BECAUSE " in b else b)

    def violation(self, rec, why):
        rec["property"], rec["why"] = self.pid, why[:4000]
        known = self.known(rec)
        if known:
            if known not in self.findings:
                self.findings.append(known)
            return
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%d.json" % (self.pid, len(self.violations) + 1))
        rec["path"] = path
        with open(path, "w") as f:
            json.dump(rec, f)
        self.violations.append(rec)

    def known(self, rec):
        """A listed finding is identified by the operation and the arguments that fail."""
        if rec["kind"] != "history":
            return None
        for k in KNOWN:
            if k["property"] != self.pid or k.get("status") != "known":
                continue
            op = rec["ev"][-1]
            if all(op.get(a) == v for a, v in k["match"].items()) and re.search(k.get("why", ""), rec["why"]):
                return k["what"]
        return None

    # ---- the whole check ---------------------------------------------------------
    def main(self):
        t0 = time.time()
        p = self.prop
        build(p.get("features", ()))
        tier = "thorough" if THOROUGH else "quick"
        items = []
        with ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(self.model, m) for m in p.get("models", [])
                    if m.get("tier", tier) == tier or m.get("tier") == "both"]
            for r in p.get("records", []):
                domain, sel, q, th, length = r[:5]
                opts = r[5] if len(r) > 5 else {}
                count = th if THOROUGH else q
                if count:
                    files = self.record(domain, sel, count, length, rc=opts.get("rc", False))
                    items += [(f, opts.get("trace", p["trace"]), domain) for f in files]
            for f in futs:
                items += f.result() or []
        log("models and recording done %.1fs" % (time.time() - t0))
        items.sort(key=lambda x: -os.path.getsize(x[0]))
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(self.validate, items))
        self.evidence(time.time() - t0)
        for k in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for v in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["path"]))
            log("   " + v["why"][:600])
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
            print("%s holds: %d model states, %d histories (%d events) validated, %.0fs"
                  % (self.pid, self.model_states, self.traces, self.events, time.time() - t0))
        return 1 if self.violations else 0

    def evidence(self, wall):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "models": self.models,
                           "outcomes": dict(sorted(self.kinds.items())), "samples": self.samples},
              "assumptions": self.prop.get("assumptions", []), "wall_s": round(wall, 1),
              "violations": len(self.violations)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


# Lines of JSON are findings; "fixed:" lines are history and suppress nothing.
KNOWN = []
kf = os.path.join(ROOT, "known_findings.txt")
if os.path.exists(kf):
    KNOWN = [json.loads(l) for l in open(kf) if l.startswith("{")]


def replay_file(path):
    rec = json.load(open(path))
    build(("rc",) if rec.get("rc") else ())
    r = Run(rec["property"], {"trace": rec.get("module")})
    if rec["kind"] == "crash":
        code, out, er = r.harness(["record", rec["domain"], rec["sel"], rec["seed"], rec["count"], rec["len"],
                                   os.path.join(r.work, "x"), 1], "x", rec.get("rc"), env={"VH_ONLY": str(rec["index"])})
        print("exit", code, er[-2000:])
        return 1 if code != 0 else 0
    ops = os.path.join(r.work, "ops.ndjson")
    cfg = rec["cfg"]
    with open(ops, "w") as f:
        f.write(json.dumps({"cfg": cfg, "ev": rec["ev"]}) + "\n")
    files = r.replay(rec["domain"], ops, "r", shards=1)
    for f in files:
        r.validate((f, rec["module"], rec["domain"]))
    for v in r.violations:
        print("VIOLATION property=%s replay=%s" % (rec["property"], v["path"]))
        print("  ", v["why"])
    return 1 if r.violations else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "--replay":
            return replay_file(sys.argv[2])
        if sys.argv[1] == "--build":
            build(("rc",))
            return 0
        from props import PROPS
        return Run(sys.argv[1], PROPS[sys.argv[1]]).main()
    except ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
