"""Check driver: runs cases on party groups, decides with an oracle, writes evidence and replays."""
import base64
import hashlib
import json
import os
import pickle
import random
import sys
import threading
import time
import traceback

from .parties import Group, Inconclusive, InitFailure

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.jsonl")
MAX_VIOL = 4


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out[d["key"]] = d["what"]
    return out


class Fail:
    """One oracle refutation.  key names the mechanism (used for known findings and for de-duplication)."""

    def __init__(self, key, msg, weight=1.0):
        self.key, self.msg = key, msg

    def __repr__(self):
        return "%s: %s" % (self.key, self.msg)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_seen = {}
        self.known = known_findings(pid)
        self.transients = []
        self.counters = {}
        self.assumptions = []
        self.inconclusive = []
        self.rule = ""
        self.t0 = time.time()
        self.stop = False

    # -------- randomness
    def rng(self, *names):
        return random.Random("%s/%s/%s/%s" % (self.pid, self.seed, self.tier, "/".join(map(str, names))))

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -------- accounting
    def count(self, name, k=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + k

    def observe(self, signature=None, sample=None):
        """One evaluation of the oracle; signature identifies distinct, non-trivial cases."""
        with self.lock:
            self.evaluations += 1
            if signature is not None:
                h = hashlib.sha1(repr(signature).encode()).digest()[:8]
                if h not in self.distinct:
                    self.distinct.add(h)
                    if sample is not None and (len(self.samples) < 12 and len(self.distinct) % 7 == 1):
                        self.samples.append(sample)

    def violation(self, fail, where, case):
        with self.lock:
            if fail.key in self.known:
                self.known_seen[fail.key] = str(fail.msg)[:300]
                return
            if any(v["key"] == fail.key for v in self.violations):
                return
            self.violations.append(
                {"key": fail.key, "msg": str(fail.msg)[:4000], "where": where, "case": case}
            )
            if len(self.violations) >= MAX_VIOL:
                self.stop = True

    # -------- the generic drive loop
    def drive(self, jobs, reruns=14, parallel=3):
        """jobs: list of dicts(label, ws, cfg, cases, mod, fn, judge, [opts], [sig]).
        Each case is executed on the job's parties and judged.  A refuted case is executed again with
        fresh protocol randomness; it is a violation when the refutation recurs (fixed-point truncation
        has a documented, tiny probability of a wrap error, which does not recur) or when three distinct
        cases are refuted at all."""
        jobs = list(jobs)
        it = iter(jobs)
        errs = []

        def worker():
            while not self.stop:
                with self.lock:
                    job = next(it, None)
                if job is None:
                    return
                try:
                    self._job(job, reruns)
                except Inconclusive as e:
                    self.inconclusive.append(str(e))
                except Exception:
                    errs.append(traceback.format_exc())
                    return

        ths = [threading.Thread(target=worker, daemon=True) for _ in range(parallel)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise RuntimeError("harness error\n" + errs[0])

    def group(self, ws, cfg=None, label="", **opts):
        last = None
        for attempt in range(3):
            try:
                return Group(ws, "%s/%s/%s/%d" % (self.pid, self.seed, self.tier, attempt), cfg, label, **opts)
            except InitFailure as e:
                last = e
        raise last

    def _job(self, job, reruns):
        try:
            g = self.group(job["ws"], job.get("cfg"), job["label"], **job.get("opts", {}))
        except InitFailure as e:
            self.violation(
                Fail("init", "parties could not be initialised: %s" % e), job["label"],
                {"label": job["label"], "ws": job["ws"], "cfg": job.get("cfg")},
            )
            return
        try:
            cases = job["cases"]
            if (job["mod"], job["fn"]) == ("vf.ex", "run"):
                from .ex import layouts

                cases = layouts(self.rng("layouts", job["label"]), cases)
            for case in cases:
                if self.stop:
                    break
                self.run_case(g, job, case, reruns)
        except InitFailure as e:
            self.violation(Fail("init", "parties could not be re-initialised: %s" % e), job["label"], {"label": job["label"]})
        finally:
            self.count("comm_events", g.total_events())
            g.kill()

    def run_case(self, g, job, case, reruns):
        def once():
            outs = g.call(job["mod"], job["fn"], case)
            return outs, job["judge"](case, outs)

        outs, fail = once()
        sig = job.get("sig", default_sig)(case)
        self.observe((job["label"], sig), sample={"on": job["label"], "case": brief(case)})
        if fail is None:
            return
        hard = any(o[0] in ("blocked", "dead") for o in outs)
        k = 1 if hard else reruns
        for _ in range(k):
            outs2, fail2 = once()
            if fail2 is not None:
                self.violation(fail2, job["label"], {
                    "label": job["label"], "ws": job["ws"], "cfg": job.get("cfg"), "mod": job["mod"], "fn": job["fn"],
                    "case": case, "opts": job.get("opts", {}),
                })
                return
        with self.lock:
            self.transients.append((job["label"], brief(case), repr(fail)[:300]))
            many = len(self.transients) >= 3
        if many:
            self.violation(
                Fail("transient", "wrong results that do not recur, on %d distinct cases (far above the "
                     "truncation error rate): %s" % (len(self.transients), self.transients)),
                job["label"], {"label": job["label"], "case": case, "mod": job["mod"], "fn": job["fn"],
                               "ws": job["ws"], "cfg": job.get("cfg")})


def default_sig(case):
    return case


def brief(case, n=300):
    s = repr(case)
    return s if len(s) <= n else s[:n] + "..."


def agree(outs):
    """Common outcome analysis.  Returns (values, Fail|None): Fail if the parties did not all finish
    the case the same way."""
    kinds = [o[0] for o in outs]
    if all(k == "ok" for k in kinds):
        return [o[1] for o in outs], None
    if all(k == "err" for k in kinds) and len({o[1] for o in outs}) == 1:
        return None, None
    desc = "; ".join(
        "rank %d: %s" % (r, o[0] if o[0] in ("ok",) else " ".join(str(x) for x in o[:3])) for r, o in enumerate(outs)
    )
    return None, Fail("diverged", "parties did not finish the same way: " + desc)


def err_of(outs):
    for o in outs:
        if o[0] == "err":
            return o
    return None


def write_replay(ctx, i, v):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "replay-%s-%d.json" % (ctx.pid, i))
    with open(path, "w") as f:
        json.dump({
            "property": ctx.pid, "seed": ctx.seed, "tier": ctx.tier, "key": v["key"], "where": v["where"],
            "message": v["msg"], "case_repr": brief(v["case"], 6000),
            "case_pickle": base64.b64encode(pickle.dumps(v["case"])).decode(),
            "replay": "VERIF_SEED=%d bash run.sh %s --replay %s" % (ctx.seed, ctx.pid, os.path.relpath(path, ROOT)),
        }, f, indent=1)
    return path


def finish(ctx, level="exploration", min_eval=1):
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": ctx.rule,
        "samples": ctx.samples[:12],
    }
    cov.update({k: v for k, v in ctx.counters.items()})
    if ctx.transients:
        cov["transient_mismatches_not_recurring"] = [list(map(str, t)) for t in ctx.transients]
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
        "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations),
    }
    with open(os.path.join(EVID, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key in ctx.known:
        if key in ctx.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, ctx.known[key]))
    for i, v in enumerate(ctx.violations):
        p = write_replay(ctx, i, v)
        print("# [%s] %s" % (v["key"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, p))
    sys.stdout.flush()
    if ctx.violations:
        return 1
    if ctx.inconclusive:
        print("INCONCLUSIVE: %s" % "; ".join(ctx.inconclusive)[:2000])
        return 3
    if ctx.evaluations < min_eval or not ctx.distinct:
        print("INCONCLUSIVE: the monitor observed too little (%d evaluations)" % ctx.evaluations)
        return 3
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs %s" % (
        ctx.pid, ctx.evaluations, len(ctx.distinct), time.time() - ctx.t0, json.dumps(ctx.counters, default=str)[:400]))
    return 0
