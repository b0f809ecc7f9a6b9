#!/usr/bin/env python3
"""Decides one property: python3 py/check.py C04 quick|thorough   (or --replay FILE).

Runs the jobs of the property (jobs.py): TLC model checks of the specification,
and conformance of the real code with it - behaviours enumerated by TLC or drawn
by gen.py are performed on /repo's asta by drv.py, and the recorded histories are
validated by TLC against Asta.tla (Trace.tla).

Exit 0: held on everything explored; 1: VIOLATION lines; 3: the machinery failed.
"""
import concurrent.futures as cf
import collections
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import gen  # noqa: E402
import jobs  # noqa: E402

REPO = os.environ.get("ASTA_VERIF_REPO", "/repo")    # (another tree: for trying the checks out only)
EVID = os.environ.get("ASTA_VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
PY = "/opt/venv/bin/python"
CLASSPATH = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEFAULT = {"on": True, "raise": True, "print": True, "non": False, "all": True}
WORKERS = 8
MODEL_WORKERS = 4


# What performs the plans of a batch and what validates the histories: drv.py's modes joined by + or the name of another driver.
def MODES(tf):
    return tf.split("+") if tf and tf not in DRIVERS else []


DRIVERS = {"config": "cfgdrv.py"}
SPECS = {"config": "ConfigTrace"}


class Machinery(Exception):
    """ The check itself failed: no answer. """


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("ASTA_TYPECHECK", "ASTARC", "TRACE", "PYTHONPATH")}
    e.update(PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0")
    e.update(kw)
    return e


def tlc(module, cfg, work, timeout, workers=1, xmx="2g", extra=(), **envs):
    md = tempfile.mkdtemp(prefix="md", dir=work)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           *([] if workers > 1 else ["-XX:CICompilerCount=2"]), "-Xss16m", f"-Xmx{xmx}", f"-Djava.io.tmpdir={md}",
           "-cp", CLASSPATH, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config",
           cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    e = env(**envs)
    try:
        p = subprocess.run(cmd, env=e, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as err:
        late = Machinery(f"TLC timed out on {module}")
        late.out = (err.stdout or b"").decode(errors="replace") if isinstance(err.stdout or b"", bytes) else err.stdout
        raise late from err
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


FLIP = {"T": "F", "F": "T", "ok": "TypeError", "TypeError": "ok", "ImportError": "ok"}


def falsified(e, i):
    """ The event with one observation falsified, in several ways: (what, index, event). """
    o = e.get("obs")
    res = []

    def put(what, **new):
        res.append((e["op"] + " " + what, i, {**e, "obs": {**o, **new}}))

    if isinstance(o, str):
        if o in FLIP:
            res.append((f"{e['op']} {o} for {FLIP[o]}", i, {**e, "obs": FLIP[o]}))
    elif isinstance(o, dict):
        if o.get("same") is True and e["op"] != "def" and o.get("k") not in ("int", "tup"):
            put("another object", same=False)
        if e["op"] == "getdim" and o["k"] == "int":
            put("another value", v=o["v"] + 1)
        if e["op"] == "getshape" and o["k"] == "tup":
            put("another value", v=o["v"] + [7])
        if e["op"] == "eq" and o["k"] == "ok":
            put("the opposite", e=not o["e"], r=not o["r"], ne=not o["ne"])
            put("one side only", r=not o["r"])
            if o["e"]:
                put("other hashes", h=not o["h"])
        if e["op"] == "def" and o["k"] == "ok":
            put("another name", name=False)
            put("another member", rest=False)
        if "out" in o:
            out = o["out"]
            put("a FAILED line", out={**out, "nf": out["nf"] + 1})
            put("another line", out={**out, "ot": out["ot"] + 1})
            if out["ps"]:
                put("a PASSED line missing", out={**out, "ps": out["ps"][1:]})
                put("a PASSED line twice", out={**out, "ps": out["ps"][:1] + out["ps"]})
            if out["hdr"]:
                put("no header", out={**out, "hdr": []})
            if o["k"] in ("enter", "returned"):
                put("rejected", k="TypeError", nm=[])
            elif o["k"] == "TypeError" and e["op"] in ("call", "ret"):
                put("accepted", k="enter" if e["op"] == "call" else "returned", same=True)
                put("another exception", k="ValueError")
                put("other names", nm=["zz"])
        if e["op"] == "boot":
            if o.get("warn") in ("T", "F"):
                put("warning", warn=FLIP[o["warn"]])
            for k, v in enumerate(o.get("ox") or []):
                if isinstance(v, bool):
                    put("another setting", ox=o["ox"][:k] + [not v] + o["ox"][k + 1:])
                    break
    return res


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix=f"asta-{pid}-")
        self.states = self.transitions = self.traces = self.events = 0
        self.counts = collections.Counter()
        self.models = []
        self.samples = []
        self.violations = []      # dicts: clauses, plan, hist, pos
        self.foreign = collections.Counter()
        self.distinct = set()
        self.special = {}
        self.clauses = None
        self.unexplored = 0
        self.clean = collections.defaultdict(list)

    # ------------------------------------------------------------ conformance
    def drive(self, d, plans, tf, timeout):
        """ Perform the plans; the number of performed ones if it hung. """
        with open(os.path.join(d, "plans.json"), "w") as f:
            for p in plans:
                f.write(json.dumps(p) + "\n")
        cmd = [PY, os.path.join(HERE, DRIVERS.get(tf, "drv.py")), "plans.json", "trace.json", *MODES(tf)]
        with open(os.path.join(d, "stderr"), "w") as err:
            try:
                p = subprocess.run(cmd, cwd=d, env=env(), stdout=err, stderr=err, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        try:
            with open(os.path.join(d, "trace.json")) as f:
                hists = [json.loads(line) for line in f if line.endswith("\n")]
        except FileNotFoundError:
            hists = []
        with open(os.path.join(d, "stderr")) as f:
            errs = f.read()
        return rc, hists, errs

    def chunk(self, plans, tf):
        d = tempfile.mkdtemp(prefix="c", dir=self.work)
        try:
            limit = 240 if self.tier == "quick" else 900
            rc, hists, errs = self.drive(d, plans, tf, limit)
            hung = []
            if rc != 0 or len(hists) != len(plans):
                # One plan ended the process or did not end: is it the code's doing?
                if len(hists) >= len(plans):
                    raise Machinery(f"driver: exit {rc}: {errs[-800:]}")
                bad = plans[len(hists)]
                d2 = tempfile.mkdtemp(prefix="c", dir=self.work)
                rc2, hists2, errs2 = self.drive(d2, [bad], tf, 90)
                if rc2 == 0 and len(hists2) == 1:
                    raise Machinery(f"driver: exit {rc} after {len(hists)} of {len(plans)} plans, not reproducible: "
                                    f"{errs[-800:]}")
                if not hists and "drv.py\"" in errs2 and REPO + "/asta" not in errs2 and rc2 != "timeout":
                    raise Machinery(f"driver: exit {rc2}: {errs2[-800:]}")
                hung.append((["crash: the code under test hangs or ends the process" if rc2 == "timeout" else
                              "crash: " + errs2.strip().split("\n")[-1][:300]], bad))
                plans = plans[:len(hists)]
            for p, h in zip(plans, hists):
                if h["err"]:
                    if REPO + "/asta" in h["err"]:
                        hung.append((["crash: unexpected " + h["err"].strip().split("\n")[-1][:300]], p))
                    else:
                        raise Machinery("driver: " + h["err"])
            res = self.validate(d, hists, SPECS.get(tf, "Trace"))
            return plans, hists, res, hung
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def validate(self, d, hists, module="Trace", timeout=None):
        """ TLC: which histories does the specification not permit? """
        if not hists:
            return {}, {}, 0, 0
        late = None
        try:
            rc, out = tlc(module + ".tla", module + ".cfg", d, timeout or (400 if self.tier == "quick" else 850),
                          TRACE=os.path.join(d, "trace.json"))
        except Machinery as err:
            late, out = err, err.out
            if "VIOLATED" not in out:
                raise
        bad, ends = collections.defaultdict(set), {}
        for m in re.finditer(r"VIOLATED(!?) (\d+) (\d+) (.*?)\"", out):
            bad[int(m[2])].add((int(m[3]), m[4]))
            if m[1]:
                ends[int(m[2])] = int(m[3])
        if late:      # what it has found so far is found
            return bad, ends, 0, 0
        if "No error has been found" not in out:
            raise Machinery("TLC: " + out[-1500:])
        skipped = sum(len(hists[h - 1]["evs"]) - n for h, n in ends.items())
        gen_, dist = states(out)
        want = sum(len(h["evs"]) + 1 for h in hists) - skipped
        if dist != want:
            raise Machinery(f"TLC walked {dist} states, expected {want}")
        return bad, ends, dist, gen_

    def conform(self, batches):
        """ batches: (plans, tf).  Everything is split over the processes. """
        chunks = []
        total = sum(len(p["evs"]) for plans, _ in batches for p in plans)
        lim = max(1500, min(8000, total // WORKERS))
        for plans, tf in batches:
            cur, size = [], 0
            most = max(100, min(600, sum(len(p["evs"]) for p in plans) // (2 * WORKERS))) if tf in DRIVERS else lim
            for p in plans:
                cur.append(p)
                size += len(p["evs"])
                if size >= most:
                    chunks.append((cur, tf))
                    cur, size = [], 0
            if cur:
                chunks.append((cur, tf))
        chunks.sort(key=lambda c: -sum(len(p["evs"]) for p in c[0]))
        with cf.ThreadPoolExecutor(WORKERS) as pool:
            for (_, tf), (plans, hists, (bad, ends, dist, gen_), hung) in zip(chunks, pool.map(lambda c: self.chunk(*c), chunks)):
                self.states += dist
                self.transitions += sum(len(h["evs"]) for h in hists)
                self.traces += len(hists)
                for h in hists:
                    self.count(h)
                for cl, p in hung:
                    self.violations.append({"clauses": cl, "plan": p, "hist": None, "pos": 0, "drv": tf})
                for k, v in bad.items():
                    self.foreign.update(c for _, c in v if not self.mine(c))
                    mine = sorted((n, c) for n, c in v if self.mine(c))
                    if mine:
                        pos = mine[0][0]
                        self.violations.append({"clauses": [c for n, c in mine if n == pos], "plan": plans[k - 1], "pos": pos, "drv": tf,
                                                "hist": hists[k - 1]["evs"][:pos]})
                    elif k in ends:
                        self.unexplored += len(hists[k - 1]["evs"]) - ends[k]
                if not hung:
                    for k, h in enumerate(hists, 1):
                        if k not in bad and len(self.clean[SPECS.get(tf, "Trace")]) < 400:
                            self.clean[SPECS.get(tf, "Trace")].append(h)
                if len(self.samples) < 3 and hists:
                    self.samples.append({"kind": "history", "cfg": hists[0]["cfg"], "events": hists[0]["evs"][:4]})

    def teeth(self):
        """ Does the validation reject histories with one falsified observation?  (Not every one must be: where the
        specification permits several answers the falsified one may be permitted, too.) """
        rnd = random.Random(self.seed)
        tried, caught = collections.Counter(), collections.Counter()
        for spec, hists in self.clean.items():
            fakes = []
            for h in rnd.sample(hists, min(len(hists), 150)):
                # prefer kinds of falsification which are rare so far
                every = [f for i, e in enumerate(h["evs"]) for f in falsified(e, i)]
                rnd.shuffle(every)
                if every:
                    what, i, fake = min(every, key=lambda f: tried[f[0]])
                    tried[what] += 1
                    fakes.append((what, {**h, "evs": h["evs"][:i] + [fake]}))
            d = tempfile.mkdtemp(prefix="f", dir=self.work)
            with open(os.path.join(d, "trace.json"), "w") as f:
                for _, h in fakes:
                    f.write(json.dumps(h) + "\n")
            try:
                bad = self.validate(d, [h for _, h in fakes], spec, 120)[0]
            except Machinery as err:
                self.special["falsified_histories_unfinished"] = str(err)[:200]
                return
            caught.update(fakes[k - 1][0] for k in bad)
        self.special["falsified_histories"] = {k: {"tried": n, "rejected": caught[k]} for k, n in sorted(tried.items())}

    def mine(self, clause):
        return self.clauses is None or any(clause.startswith(c) for c in self.clauses)

    def count(self, h):
        """ What the histories exercised (non-vacuity). """
        made = 0
        for e in h["evs"]:
            o = e.get("obs")
            if e["op"] in ("mk", "def", "setdim", "setshape"):
                made = hash((made, json.dumps({k: v for k, v in e.items() if k != "obs"}, sort_keys=True)))
            self.events += 1
            if e["op"] == "isinst":
                k = "isinstance " + {"T": "true", "F": "false"}.get(o, "other")
            elif e["op"] in ("mk", "new", "setdim", "setshape", "cat"):
                k = e["op"] + " " + str(o)
            elif e["op"] == "eq":
                k = "equal" if o.get("e") else "unequal"
            elif e["op"] in ("call", "ret", "raise"):
                k = e["op"] + " " + o["k"] + (" with FAILED" if o["out"]["nf"] else "")
            elif e["op"] == "boot":
                k = "boot " + ("".join("TF"[not x] if isinstance(x, bool) else "?" for x in o["ox"]) or o["err"])
            else:
                k = e["op"]
            if "p" in e and e["op"] == "write":
                made = hash((made, json.dumps(e, sort_keys=True)))
            if e["op"] == "use":
                k = f"use {e['w']} {o}"
            self.counts[k] += 1
            if e["op"] in ("boot", "use", "isinst", "eq", "call", "mk", "ret"):
                self.distinct.add(hash((made, e["op"] == "mk" or json.dumps({k: v for k, v in e.items() if k != "obs"}, sort_keys=True))))

    # ----------------------------------------------------------------- models
    def model(self, module, cfg, why, expect=None, consts=None, **envs):
        if consts:
            with open(os.path.join(SPEC, cfg)) as f:
                text = f.read()
            for k, v in consts.items():
                text, hits = re.subn(rf"(?m)^( *){k} *=.*$", rf"\g<1>{k} = {v}", text)
                if hits != 1:
                    raise Machinery(f"{module}: no constant {k}")
            cfg = os.path.join(self.work, f"{module}-{len(self.models)}-{time.time_ns()}.cfg")
            with open(cfg, "w") as f:
                f.write(text)
        t = time.time()
        rc, out = tlc(module, cfg, self.work, 850 if self.tier == "quick" else 5000, workers=MODEL_WORKERS, xmx="6g", **envs)
        if "No error has been found" not in out:
            raise Machinery(f"{module} does not hold (a defect of the specification): {out[-2500:]}")
        g, dist = states(out)
        return {"module": module, "what": why, "states": dist, "transitions": g, "constants": consts or {},
                "wall_s": round(time.time() - t, 1)}

    def enumerate(self, module, consts, cfg):
        """ Plans enumerated by TLC from a Gen module. """
        dest = os.path.join(self.work, f"{module}-{time.time_ns()}.json")
        tcfg = dest + ".cfg"
        with open(tcfg, "w") as f:
            f.write("".join(f"CONSTANT {k} = {v}\n" for k, v in consts.items()))
        rc, out = tlc(module + ".tla", tcfg, self.work, 800, xmx="4g", DEST=dest)
        if not os.path.exists(dest):
            raise Machinery(f"{module}: {out[-2500:]}")
        plans = []
        with open(dest) as f:
            for line in f:
                if line.strip():
                    p = json.loads(line)
                    p.setdefault("nsh", 3)
                    p.setdefault("names", len(plans) % 7)
                    p.setdefault("loc", len(plans) % 3 == 1)
                    p["cfg"] = cfg
                    for e in p["evs"]:
                        e.setdefault("th", 1)
                    plans.append(p)
        os.remove(dest)
        return plans


def run(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = jobs.PROPS[pid]
    r = Run(pid, tier, seed)
    r.clauses = spec.get("clauses")
    try:
        todo = [j for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
        scale = spec.get("qscale", 4) if tier == "quick" else spec.get("scale", 40)
        mpool = cf.ThreadPoolExecutor(2)
        models = [mpool.submit(r.model, j["module"], j["cfg"], j["why"],
                               consts={**j.get("consts", {}), **(j.get("thorough", {}) if tier == "thorough" else {})})
                  for j in todo if j["do"] == "model"]
        gens = [(j, mpool.submit(r.enumerate, j["module"],
                                 {**j.get("consts", {}), **(j.get("thorough", {}) if tier == "thorough" else {})},
                                 {**DEFAULT, **j.get("c", {})})) for j in todo if j["do"] == "enum"]
        batches = []
        for k, j in enumerate(todo):
            if j["do"] == "rand":
                cfg = {**DEFAULT, **j.get("c", {})}
                prof = j.get("prof", {})
                n = int(j["n"] * scale)
                plans = list(gen.plans(j["kind"], n, f"{seed}/{pid}/{tier}/{k}", cfg, prof))
                b = prof.get("backend", "A")
                batches.append((plans, j.get("drv") or "+".join(["tf"] * ("T" in b) + ["torch"] * ("P" in b))))
        for j, fut in gens:
            plans = fut.result()
            r.special.setdefault("enumerated_by_TLC", []).append(
                {"module": j["module"], "constants": j.get("consts", {}), "plans": len(plans),
                 "events": sum(len(p["evs"]) for p in plans)})
            batches.append((plans, j.get("drv") or ("tf" if j.get("tf") else "")))
        r.conform(batches)
        r.teeth()
        for j in todo:
            if j["do"] == "py":
                j["fn"](r, tier)
        for m in models:
            m = m.result()
            r.models.append(m)
            r.states += m["states"]
            r.transitions += m["transitions"]
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    return finish(r, spec, t0)


def known():
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    res.append(m.groups())
    return res


def finish(r, spec, t0):
    os.makedirs(EVID, exist_ok=True)
    findings = known()
    fresh = []
    for v in r.violations:
        v["key"] = hashlib.sha256(json.dumps([v["clauses"], (v["hist"] or v["plan"])], sort_keys=True, default=str)
                                  .encode()).hexdigest()[:16]
        hit = [f for f in findings if f[0] == r.pid and f[1] == v["key"]]
        if hit:
            print(f"KNOWN-FINDING: property={r.pid} {hit[0][2]}")
        else:
            fresh.append(v)
    fresh.sort(key=lambda v: v["pos"] if v["hist"] else 10 ** 6)
    for k, v in enumerate(fresh[:3]):
        path = os.path.join(EVID, f"{r.pid}.replay{k or ''}.json")
        with open(path, "w") as f:
            json.dump({"property": r.pid, **v}, f, indent=1, default=str)
        print(f"VIOLATION property={r.pid} replay={path}")
        print(f"  {'; '.join(v['clauses'])}")
    if len(fresh) > 3:
        print(f"  ... {len(fresh)} violations in all")
    cov = {"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces,
           "events_validated": r.events, "distinct_checks": len(r.distinct), "observed": dict(sorted(r.counts.items())),
           "models": r.models, "samples": r.samples or [{"none": True}], **r.special}
    if r.foreign:
        cov["stopped_by_clauses_of_other_properties"] = dict(r.foreign)
        cov["events_not_reached"] = r.unexplored
    ev = {"property": r.pid, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", jobs.ASSUME), "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(EVID, f"{r.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{r.pid} {r.tier}: {r.traces} histories ({r.events} events, {len(r.distinct)} distinct checks) validated, "
          f"{sum(m['states'] for m in r.models)} model states, {len(fresh)} violations, {ev['wall_s']} s")
    return 1 if fresh else 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    r = Run(v["property"], "quick", 0)
    try:
        plans, hists, (bad, _, _), hung = r.chunk([v["plan"]], v["drv"])
        for cl, _ in hung:
            print(cl)
        for h in hists:
            for i, e in enumerate(h["evs"], 1):
                print(i, json.dumps(e))
        for k, cl in bad.items():
            print(sorted(cl))
        return 1 if bad or hung else 0
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    try:
        return run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Machinery as err:
        print(f"ERROR: {err}")
        return 3


if __name__ == "__main__":
    sys.exit(main())
