"""C18: random histories of configuration changes are run on the real configuration object and on a stack model, and every
library function is run (and made to fail at each of its communication calls) with a snapshot of the configuration around it."""
import copy
import os
import random
import tempfile

import torch

from ..core import Fail, agree
from ..gen import grid

ME = "vf.checks.c18"
MIN_EVAL = 100

KEYS = {
    "communicator.verbose": [True, False], "debug.debug_mode": [True, False], "debug.validation_mode": [True, False], "encoder.precision_bits": [0, 1, 8, 16, 20, None],
    "functions.max_method": ["log_reduction", "pairwise", "double_log_reduction", "accelerated_cascade", None], "functions.exp_iterations": [1, 8, 9, 0],
    "functions.reciprocal_method": ["NR", "log"], "functions.reciprocal_nr_iters": [1, 10, 100], "functions.reciprocal_all_pos": [True, False], "functions.reciprocal_initial": [None, 0.5, 1, 1e-05, -2.25, 12345678.5],
    "functions.sqrt_nr_iters": [3, 4], "functions.sqrt_nr_initial": [None, 0.25], "functions.sigmoid_tanh_method": ["reciprocal", "chebyshev"], "functions.sigmoid_tanh_terms": [32, 6],
    "functions.log_iterations": [2, 3], "functions.log_exp_iterations": [8, 7], "functions.log_order": [8, 5], "functions.trig_iterations": [10, 2], "functions.erf_iterations": [8, 3],
    "mpc.active_security": [True, False], "mpc.provider": ["TFP", "TTP"], "mpc.protocol": ["beaver", "replicated"], "nn.dpsmpc.protocol": ["layer_estimation", "full_jacobian"], "nn.dpsmpc.skip_loss_forward": [True, False],
    "nn.dpsmpc.cache_pred_size": [True, False], "functions.reciprocal_log_iters": [1, 2],
}


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


def put(d, key, v):
    *ps, last = key.split(".")
    for p in ps:
        if not isinstance(d.get(p), dict):
            d[p] = {}
        d = d[p]
    if isinstance(v, dict):
        for k, q in v.items():
            put(d, last + "." + k, q)
    else:
        d[last] = v


def diff(a, b, pre=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s%s is %s" % (pre, k, "missing" if k in a else "new")
            r = diff(a[k], b[k], pre + k + ".")
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b:
        return "%s is %r instead of %r" % (pre[:-1], b, a)
    return None


class World:
    """The real object and its model side by side."""

    def __init__(self, cfg, other, files):
        from omegaconf import OmegaConf

        self.plain = lambda c: OmegaConf.to_container(c.config)
        self.cfg, self.other, self.files = cfg, other, files
        self.model = copy.deepcopy(self.plain(cfg))
        self.other0 = copy.deepcopy(self.plain(other))
        self.trace = []
        self.problem = None
        self.n = 0

    def look(self, what):
        self.trace.append(what)
        self.n += 1
        if self.problem:
            return
        d = diff(self.model, self.plain(self.cfg)) or diff(self.other0, self.plain(self.other), "(another configuration object) ")
        if not d:
            for k in KEYS:
                cur, m = self.cfg, self.model
                try:
                    for p in k.split("."):
                        cur, m = getattr(cur, p), m[p]
                except Exception as e:  # noqa
                    d = "reading cfg.%s raised %s" % (k, type(e).__name__)
                    break
                if not isinstance(m, dict) and (cur != m or self.cfg[k] != m or getattr(self.cfg, k) != m or type(self.cfg[k]) is not type(m)):
                    d = "cfg[%r] reads %r, cfg.%s reads %r, must be %r" % (k, self.cfg[k], k, cur, m)
                    break
        if d:
            self.problem = "%s; history %s" % (d, self.trace)


def play(w, steps):
    for st in steps:
        op = st[0]
        if op == "item":
            w.cfg[st[1]] = st[2]
            put(w.model, st[1], st[2])
            w.look("cfg[%r] = %r" % st[1:])
        elif op == "attr":
            cur = w.cfg
            *ps, last = st[1].split(".")
            for p in ps:
                cur = getattr(cur, p)
            setattr(cur, last, st[2])
            put(w.model, st[1], st[2])
            w.look("cfg.%s = %r" % st[1:])
        elif op == "setattr":
            setattr(w.cfg, st[1], st[2])
            put(w.model, st[1], st[2])
            w.look("setattr(cfg, %r, %r)" % st[1:])
        elif op == "load":
            w.cfg.load_config(w.files[st[1]][0])
            w.model = copy.deepcopy(w.files[st[1]][1])
            w.look("load_config(file %d)" % st[1])
        elif op == "set_config":
            from omegaconf import OmegaConf

            c = type(w.cfg)()
            for k, v in st[1].items():
                c[k] = v
            m = copy.deepcopy(w.plain(c))
            w.cfg.set_config(c if st[2] else OmegaConf.create(copy.deepcopy(m)))
            w.model = m
            w.look("set_config(%r)" % (st[1],))
        elif op == "raise":
            w.trace.append("raise")
            raise (Hard if st[1] else Stop)()
        elif op == "bad":
            saved = copy.deepcopy(w.model)
            try:
                with w.cfg.temp_override(st[1]):
                    w.model = w.plain(w.cfg)  # whatever it means inside
            except Exception:
                pass
            w.model = saved
            w.look("after override %r" % (st[1],))
        elif op in ("with", "deco", "stack", "loop", "gen"):
            ov, body = st[1], st[2]
            saved = copy.deepcopy(w.model)

            def inside():
                for k, v in ov.items():
                    put(w.model, k, v)
                w.look("%s override %r {" % (op, ov))
                play(w, body)

            try:
                if op == "with":
                    with w.cfg.temp_override(dict(ov)):
                        inside()
                elif op == "deco":
                    # one decorated function called twice
                    f = w.cfg.temp_override(dict(ov))(inside)
                    try:
                        f()
                    finally:
                        w.model = copy.deepcopy(saved)
                        w.look("} first call over")
                    f()
                elif op == "stack":
                    from contextlib import ExitStack

                    with ExitStack() as es:
                        es.enter_context(w.cfg.temp_override(dict(ov)))
                        inside()
                elif op == "loop":
                    for _ in range(2):
                        with w.cfg.temp_override(dict(ov)):
                            inside()
                            break
                elif op == "gen":
                    def g():
                        with w.cfg.temp_override(dict(ov)):
                            yield 1

                    it = g()
                    next(it)
                    try:
                        inside()
                    finally:
                        it.close()
            finally:
                w.model = saved
                w.look("}")
        elif op == "try":
            try:
                play(w, st[1])
            except (Stop, Hard):
                w.look("caught")
        elif op == "return":
            w.trace.append("return")
            return


def run(case):
    """Histories on the global object (restored at the end) or on a fresh one."""
    import yaml
    from crypten.config import cfg
    from crypten.config.config import CrypTenConfig

    out = []
    d = tempfile.mkdtemp(prefix="vf18-")
    try:
        base = CrypTenConfig()
        from omegaconf import OmegaConf

        files = [(None, OmegaConf.to_container(base.config))]
        for k in range(2):
            c = copy.deepcopy(files[0][1])
            c["functions"]["exp_iterations"] = 20 + k
            c["encoder"]["precision_bits"] = 12 + k
            p = os.path.join(d, "c%d.yaml" % k)
            with open(p, "w") as f:
                yaml.safe_dump(c, f)
            files.append((p, c))
        for h, fresh in case["histories"]:
            c = CrypTenConfig() if fresh else cfg
            before = c.config
            w = World(c, cfg if fresh else base, files)
            try:
                play(w, h)
            except (Stop, Hard):
                w.look("uncaught")
            if not fresh:
                cfg.config = before
            out.append((w.problem, w.n))
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    return out


def gen(r, depth=0, inside=False):
    steps = []
    for _ in range(r.randrange(1, 5)):
        k = r.random()
        key = r.choice(list(KEYS))
        v = r.choice(KEYS[key])
        if k < .12:
            steps.append(("item", key, v))
        elif k < .24:
            steps.append(("attr", key, v))
        elif k < .3:
            steps.append(("setattr", key, v))
        elif k < .34:
            steps.append(("load", r.randrange(3)))
        elif k < .38:
            ks = r.sample(list(KEYS), 2)
            steps.append(("set_config", {q: r.choice(KEYS[q]) for q in ks}, r.random() < .5))
        elif k < .43:
            steps.append(("bad", r.choice([None, 5, {"functions.exp_iterations.deeper": 3}, {"unknown.section.x": 1}, {"functions": 3}, {"brand_new": 1}, {"functions.max_method": "[unclosed"}, {}])))
        elif k < .5 and inside:
            steps.append(("raise", r.random() < .3))
            break
        elif k < .53 and inside:
            steps.append(("return",))
            break
        elif depth < 5:
            ov = {}
            for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
                q = r.choice(list(KEYS))
                ov[q] = r.choice(KEYS[q])
            if r.random() < .1:
                ov = {"functions": {"exp_iterations": r.choice([3, 4]), "max_method": "pairwise"}}
            body = gen(r, depth + 1, True)
            st = (r.choice(["with", "with", "with", "deco", "stack", "loop", "gen"]), ov, body)
            steps.append(("try", [st]) if r.random() < .6 else st)
    return steps


# ------------------------------------------------------------------ library functions
LIB = ["x.exp()", "xp.log()", "xp.log(input_in_01=True)", "xp.reciprocal()", "x.reciprocal(input_in_01=True)", "xp.inv_sqrt()", "xp.sqrt()", "x.sin()", "x.cos()", "x.cossin()", "x.tanh()", "x.sigmoid()", "x.erf()", "x.softmax(1)", "x.log_softmax(0)", "x.logsigmoid()",
       "x.max()", "x.max(1)", "x.max(1, keepdim=True)", "x.max(0, one_hot=False)", "x.min(1)", "x.argmax(1)", "x.argmax(1, one_hot=False)", "x.argmin()", "x.argmin(0, one_hot=False)", "x.abs()", "x.sign()", "x.relu()", "x / xp", "1 / 2 * x", "x.norm()", "xp.pos_pow(1.5)", "x.pow(-2)", "x.pow(3)",
       "x.hardtanh()", "x.relu6()", "x.prod(1)", "x.polynomial([1, 2])", "x.var(1)", "x.dropout(0.5)", "i.max_pool2d(2)", "i.max_pool2d(2, return_indices=True)", "i.adaptive_max_pool2d(2)", "i.avg_pool2d(2)", "i.adaptive_avg_pool2d((1, 2))", "M.rand(2, 2)", "M.randn(2, 2)", "M.bernoulli(M.cryptensor(torch.full((2, 2), .5)))",
       "xp.binary_cross_entropy(xp)", "x.cross_entropy(xp)", "x.binary_cross_entropy_with_logits(xp)", "x.clone().weighted_index(1) if False else x.weighted_index(1)", "x.weighted_sample(1) if False else xp.weighted_sample(1)", "x.batchnorm(w, w, training=False, running_mean=w, running_var=w)"]
BADLIB = ["x.max(9)", "x.argmax(-7)", "x.softmax(5)", "x.log_softmax(4)", "x.exp(3)", "x.pow(1.5)", "xp.reciprocal(3)", "x.pos_pow('a')", "x / 'a'", "x.max_pool2d(2)", "i.max_pool2d(0)", "xp.inv_sqrt(1, 2)", "x.argmin(3)"]
GRADS = ["x.exp()", "xp.log()", "xp.reciprocal()", "xp.sqrt()", "xp.inv_sqrt()", "x.sin()", "x.tanh()", "x.sigmoid()", "x.erf()", "x.softmax(1)", "x.log_softmax(1)", "x.max(1)[0]", "x.min()", "x / xp", "x.norm()", "xp.binary_cross_entropy(xp)", "x.cross_entropy(xp)", "i.max_pool2d(2)", "x.abs()", "x.relu()", "x.hardtanh()", "xp.pos_pow(1.5)"]
OVS = [{}, {"functions.max_method": "pairwise"}, {"functions.max_method": "double_log_reduction"}, {"functions.max_method": "accelerated_cascade"}, {"functions.reciprocal_all_pos": True, "functions.exp_iterations": 5}, {"functions.sigmoid_tanh_method": "chebyshev", "functions.sigmoid_tanh_terms": 6},
       {"functions.max_method": "nonsense"}, {"functions.reciprocal_method": "nonsense"}, {"functions.sigmoid_tanh_method": "nonsense"}, {"debug.validation_mode": True}, {"functions.log_exp_iterations": 6, "functions.exp_iterations": 7, "functions.reciprocal_initial": 0.5}, {"encoder.precision_bits": 14}]


class Injected(Exception):
    pass


class Fuse:
    """Makes the k-th communication call of this party fail (all parties use the same k)."""

    def __init__(self, k):
        import crypten.communicator as comm

        self.c, self.k, self.n = comm.get(), k, 0
        self.names = ["all_reduce", "broadcast", "reduce", "all_gather", "gather", "scatter", "isend", "irecv", "send", "recv", "broadcast_obj", "send_obj", "recv_obj"]

    def __enter__(self):
        for n in self.names:
            f = getattr(self.c, n)

            def g(*a, _f=f, **kw):
                self.n += 1
                if self.n == self.k:
                    raise Injected()
                return _f(*a, **kw)

            self.c.__dict__[n] = g
        return self

    def __exit__(self, *a):
        for n in self.names:
            self.c.__dict__.pop(n, None)


def lib(case):
    import crypten
    from crypten.config import cfg
    from omegaconf import OmegaConf

    out = []
    snap = lambda: OmegaConf.to_container(cfg.config)  # noqa
    before = snap()
    grad = case["grad"]
    err, n, k, problem, fired = None, 0, 0, None, 0
    for k in [0] + case["fuses"]:
        with cfg.temp_override(case["ov"]):
            mid = snap()
            x = crypten.cryptensor(case["x"], requires_grad=grad)
            xp = crypten.cryptensor(case["x"].abs() / 4 + 0.5, requires_grad=grad)
            i = crypten.cryptensor(case["i"], requires_grad=grad)
            w = crypten.cryptensor(torch.ones(3), requires_grad=grad)
            err = None
            with Fuse(max(1, n * k // 1000) if k else -1) as fz:
                try:
                    v = eval(case["expr"], {"x": x, "xp": xp, "i": i, "w": w, "M": crypten, "torch": torch})
                    if grad:
                        v.sum().backward()
                except Exception as e:  # noqa
                    err = type(e).__name__
            if not k:
                n = fz.n
            fired += err == "Injected"
            d = diff(mid, snap())
            if d and not problem:
                problem = "after %s (%s%s) under %s: %s" % (case["expr"], "backward, " if grad else "", "failed at communication call %d of %d" % (fz.k, n) if k else "error %s" % err if err else "successful", case["ov"], d)
        d = diff(before, snap())
        if d and not problem:
            problem = "after leaving the override %s around %s: %s" % (case["ov"], case["expr"], d)
        out.append(err)
    return problem, n, fired, out


FORCE = [("x.exp()", "functions.exp_iterations", 4), ("xp.reciprocal()", "functions.reciprocal_nr_iters", 4), ("xp.reciprocal()", "functions.reciprocal_all_pos", True), ("xp.sqrt()", "functions.sqrt_nr_iters", 5), ("x.sigmoid()", "functions.sigmoid_tanh_method", "chebyshev"),
         ("xp.log()", "functions.log_iterations", 4), ("xp.log()", "functions.log_order", 4), ("xp.log()", "functions.log_exp_iterations", 5), ("x.sin()", "functions.trig_iterations", 5), ("x.max(1)", "functions.max_method", "pairwise"), ("x.max(1)", "functions.max_method", "accelerated_cascade"), ("x.max(1)", "functions.max_method", "double_log_reduction"),
         ("x.erf()", "functions.erf_iterations", 4), ("x.tanh()", "functions.sigmoid_tanh_method", "chebyshev"), ("x * x", "mpc.active_security", True), ("xp.reciprocal()", "functions.reciprocal_initial", 0.25)]


def force(case):
    """The value in force decides: communication under an override equals that under a set value, and is back to normal afterwards."""
    import crypten
    from crypten.config import cfg

    from .. import instrument

    x = crypten.cryptensor(case["x"])
    xp = crypten.cryptensor(case["x"].abs() / 4 + 0.5)

    def cost():
        rec = instrument.record()
        v = eval(case["expr"], {"x": x, "xp": xp})
        instrument.stop_record()
        v = v[0] if isinstance(v, tuple) else v
        return [(e["op"], e["shapes"]) for e in rec], v.get_plain_text()

    def prec():
        y = crypten.cryptensor(torch.tensor([1.5]))
        return y._tensor.encoder.scale

    res = {"normal": cost()}
    with cfg.temp_override({case["key"]: case["v"]}):
        res["override"] = cost()
        try:
            with cfg.temp_override({case["key"]: cfg[case["key"]], "encoder.precision_bits": 12}):
                p12 = prec()
                raise Stop
        except Stop:
            pass
        p16 = prec()
        res["override2"] = cost()
    res["after"] = cost()
    old = cfg[case["key"]]
    cfg[case["key"]] = case["v"]
    res["set"] = cost()
    cfg[case["key"]] = old
    res["end"] = cost()
    return {k: v[0] for k, v in res.items()}, {k: v[1] for k, v in res.items()}, (p12, p16)


def j_run(case, outs):
    vals, f = agree(outs)
    if f or vals is None:
        return f or Fail("harness", "raised %s" % (outs[0][1:],))
    for p, n in vals[0]:
        if p:
            return Fail("history", p[:1500])
    return None


def j_lib(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("library", "raised %s" % (outs[0][1:],))
    for v in vals:
        if v[0]:
            return Fail("library:" + case["expr"], v[0])
    return None


def j_force(case, outs):
    vals, f = agree(outs)
    if f or vals is None:
        return f or Fail("force:" + case["expr"], "raised %s" % (outs[0][1:],))
    for c, v, p in vals:
        what = "%s with %s = %r" % (case["expr"], case["key"], case["v"])
        if c["override"] != c["set"] or c["override"] != c["override2"]:
            return Fail("force:" + case["key"], "%s: an override does not act like setting the value (%d, %d against %d communication calls)" % (what, len(c["override"]), len(c["override2"]), len(c["set"])))
        if c["normal"] != c["after"] or c["normal"] != c["end"]:
            return Fail("force:" + case["key"], "%s: the function does not return to its normal behaviour afterwards" % what)
        if case["key"] in ("functions.erf_iterations", "functions.reciprocal_initial"):
            pass
        elif c["normal"] == c["override"]:
            return Fail("force:" + case["key"], "%s: the override has no effect" % what)
        tol = 5e-2 * (1 + float(v["set"].abs().max()))
        for a, b in (("override", "set"), ("override2", "set"), ("normal", "after"), ("normal", "end")):
            if float((v[a] - v[b]).abs().max()) > tol:
                return Fail("force:" + case["key"], "%s: results differ between '%s' and '%s': %s %s" % (what, a, b, v[a].flatten()[:4], v[b].flatten()[:4]))
        if p != (2 ** 12, 2 ** 16):
            return Fail("force:precision", "scale of new tensors inside and after a failing override block: %s" % (p,))
    return None


def check(ctx):
    ctx.rule = ("A history case runs random nestings of set / override / load / failing blocks against a stack model, comparing all values after every step; a library case runs one function under an override and again with its communication failing at several "
                "points, comparing configuration snapshots; a force case compares the communication and result under an override with those under a set value.")
    ctx.assumptions = ["values are the types the default configuration uses", "overrides are left in the order they were entered"]
    r = ctx.rng("hist")
    hs = [{"histories": [(gen(r), r.random() < .4) for _ in range(20)]} for _ in range(ctx.n(40, 1500))]
    jobs = [dict(label="histories", ws=1, cases=hs, mod=ME, fn="run", judge=j_run, opts={"no_init": True}, sig=lambda c: str(c["histories"][0])[:200])]
    for ws in (2, 1):
        r = ctx.rng("lib", ws)
        cs = []
        exprs = [(e, False) for e in LIB + BADLIB] + [(e, True) for e in GRADS]
        reps = ctx.n(1, 5)
        for e, g in exprs:
            for ov in ([OVS[0]] if ws == 2 else []) + r.sample(OVS[1:], min(len(OVS) - 1, reps)):
                if ws == 1 and ctx.tier == "quick" and r.random() < .5:
                    continue
                if g and "debug.validation_mode" in ov:
                    ov = {}
                cs.append({"expr": e, "grad": g, "ov": ov, "fuses": sorted(r.sample(range(1, 1001), ctx.n(3, 12))) + [1], "x": grid(r, (2, 3), 0.25, 2), "i": grid(r, (1, 1, 4, 4), 0.25, 2)})
        r.shuffle(cs)
        h = len(cs) // 2
        for part, sub in (("a", cs[:h]), ("b", cs[h:])):
            jobs.append(dict(label="library-%d%s" % (ws, part), ws=ws, cases=sub, mod=ME, fn="lib", judge=j_lib, sig=lambda c: (c["expr"], c["grad"], str(c["ov"]))))
    r = ctx.rng("force")
    jobs.append(dict(label="force", ws=2, cases=[{"expr": e, "key": k, "v": v, "x": grid(r, (2, 3), 0.25, 2)} for e, k, v in FORCE], mod=ME, fn="force", judge=j_force, sig=lambda c: (c["expr"], c["key"], c["v"])))
    ctx.drive(jobs, reruns=2, parallel=4)
