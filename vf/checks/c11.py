"""C11: every correlated-randomness tuple handed out over arbitrary request/trace/fill/save/load histories is
joined over all parties, checked against its relation with unbounded integers, and against everything handed
out before (freshness), over sessions that share every application-level seed."""
import os
import shutil
import tempfile

import torch

from .. import ex
from ..core import Fail, agree
from ..ex import enc
from ..gen import grid

ME = "vf.checks.c11"
MIN_EVAL = 60
M64 = 1 << 64


# ------------------------------------------------------------------ party side
def _shares(v):
    out = []
    for t in v if isinstance(v, (tuple, list)) else [v]:
        out.append((type(t).__name__, t.share.clone(), int(t.encoder.scale) if hasattr(t, "encoder") and t.encoder else 1))
    return out


def run(case):
    import crypten
    import crypten.communicator as comm

    from .. import instrument

    rank = comm.get().get_rank()
    d = tempfile.mkdtemp(prefix="vfcache-")
    pr = crypten.mpc.get_default_provider()
    out = []
    try:
        pr.trace(False)
        os.mkdir(d + "/junk")
        pr.save_cache(d + "/junk")  # empties both caches
        shutil.rmtree(d + "/junk")
        os.mkdir(d + "/c")
        for st in case["steps"]:
            pr = crypten.mpc.get_default_provider()
            rec = instrument.record()
            r = None
            if st[0] == "req":
                r = _shares(getattr(pr, st[1])(*st[2], **st[3]))
            elif st[0] == "trace":
                pr.trace(st[1])
            elif st[0] == "trace_once":
                pr.trace_once()
            elif st[0] == "fill":
                pr.fill_cache()
            elif st[0] == "save":
                pr.save_cache(d + "/c")
            elif st[0] == "load":
                pr.load_cache(d + "/c")
            elif st[0] == "seed":
                import random

                torch.manual_seed(st[1])
                random.seed(st[1])
            elif st[0] == "op":
                ops = [ex.mk(s, rank, i) for i, s in enumerate(st[2])]
                r = eval(st[1], dict(ex.env_common(), **dict(zip("abc", ops)))).get_plain_text()
            instrument.stop_record()
            out.append((r, len(rec)))
    finally:
        instrument.stop_record()
        pr.trace(False)
        shutil.rmtree(d, ignore_errors=True)
    return out


# ------------------------------------------------------------------ oracle
def ints(t):
    return [int(v) for v in t.flatten().tolist()]


def signed(v):
    v %= M64
    return v - M64 if v >= M64 // 2 else v


def additive(ts):
    tot = ts[0].clone()
    for t in ts[1:]:
        tot = tot + t
    return tot


def xor(ts):
    tot = ts[0].clone()
    for t in ts[1:]:
        tot = tot ^ t
    return tot


class Seen:
    """Values handed out so far; bit statistics."""

    def __init__(self):
        self.vals = {}
        self.bits = {}

    def add(self, kind, t, tag):
        for v in ints(t):
            if v in self.vals and self.vals[v][1] != tag:
                return "%s value %d was already used as %s" % (kind, v, self.vals[v][0])
            if v in self.vals:
                return "%s value %d occurs twice in one request" % (kind, v)
            self.vals[v] = (kind, tag)
        if t.numel():
            c = self.bits.setdefault(kind, [0, [0] * 64])
            c[0] += t.numel()
            for b in range(64):
                c[1][b] += int(((t >> b) & 1).sum())
        return None

    def bits1(self, kind, t):
        c = self.bits.setdefault(kind, [0, [0]])
        c[0] += t.numel()
        c[1][0] += int(t.sum())

    def biased(self):
        for kind, (n, ones) in self.bits.items():
            if n < 400:
                continue
            for b, k in enumerate(ones):
                if abs(k - n / 2) > 6.2 * (n ** 0.5) / 2:
                    return "bit %d of %s is set in %d of %d values" % (b, kind, k, n)
        return None


def tuple_check(st, per_rank, ws, seen, tag):
    func, args, kw = st[1], st[2], st[3]
    n = {"generate_additive_triple": 3, "square": 2, "generate_binary_triple": 3, "wrap_rng": 2, "B2A_rng": 2}[func]
    if any(len(p) != n for p in per_rank):
        return "expected %d tensors" % n
    for i in range(n):
        if len({tuple(p[i][1].shape) for p in per_rank}) > 1:
            return "parties hold shares of different shapes"
    S = [[p[i][1] for p in per_rank] for i in range(n)]
    kw = {k: v for k, v in kw.items() if k != "device"}
    e = None
    if func == "generate_additive_triple":
        a, b, c = (additive(s) for s in S)
        if tuple(a.shape) != tuple(args[0]) or tuple(b.shape) != tuple(args[1]):
            return "factors have shapes %s, %s" % (tuple(a.shape), tuple(b.shape))
        w = getattr(torch, args[2])(a, b, **kw)
        if w.shape != c.shape or not torch.equal(w, c):
            return "c is not %s(a, b) %s" % (args[2], kw)
        hidden = [("a", a), ("b", b)]
        shares = [("a", 0), ("b", 1), ("c", 2)]
    elif func == "square":
        r, r2 = (additive(s) for s in S)
        if tuple(r.shape) != tuple(args[0]):
            return "r has shape %s" % (tuple(r.shape),)
        if r2.shape != r.shape or not torch.equal(r * r, r2):
            return "r2 is not r squared"
        hidden = [("r", r)]
        shares = [("r", 0), ("r2", 1)]
    elif func == "generate_binary_triple":
        a, b, c = (xor(s) for s in S)
        if tuple(a.shape) != tuple(args[0]) or tuple(b.shape) != tuple(args[1]):
            return "factors have shapes %s, %s" % (tuple(a.shape), tuple(b.shape))
        w = a & b
        if w.shape != c.shape or not torch.equal(w, c):
            return "c is not a & b"
        hidden = [("bin-a", a), ("bin-b", b)]
        shares = [("bin-a", 0), ("bin-b", 1), ("bin-c", 2)]
    elif func == "wrap_rng":
        th = additive(S[1])
        if tuple(S[0][0].shape) != tuple(args[0]) or tuple(th.shape) != tuple(args[0]):
            return "r and theta have shapes %s, %s" % (tuple(S[0][0].shape), tuple(th.shape))
        cols = [ints(s) for s in S[0]]
        for j, t in enumerate(ints(th)):
            tot = sum(c[j] for c in cols)
            if (tot - signed(tot)) // M64 != t:
                return "shares %s wrap %d times, theta is %d" % ([c[j] for c in cols], (tot - signed(tot)) // M64, t)
        hidden = []
        shares = [("wrap-r", 0)] + ([("wrap-theta", 1)] if ws > 1 else [])
    else:
        rA, rB = additive(S[0]), xor(S[1])
        if tuple(rA.shape) != tuple(args[0]) or rB.shape != rA.shape:
            return "bits have shapes %s, %s" % (tuple(rA.shape), tuple(rB.shape))
        if not torch.equal(rA, rB) or ((rA != 0) & (rA != 1)).any():
            return "arithmetic sharing holds %s, binary sharing %s" % (ints(rA)[:8], ints(rB)[:8])
        seen.bits1("hidden bit", rA)
        hidden = []
        shares = [("bit-A", 0)] if ws > 1 else []
    for p in per_rank:
        for t in p:
            if t[0] == "ArithmeticSharedTensor" and t[2] != 1:
                return "tuple carries a fixed-point scale %d" % t[2]
    if ws == 1:
        hidden, shares = [], shares if func != "B2A_rng" else []
        shares = [s for s in shares if s[0] not in ("c", "r2", "bin-c", "wrap-theta")]
    for k, t in hidden:
        e = e or seen.add(k, t, (tag, k))
    for k, i in shares:
        for r in range(ws):
            e = e or seen.add("%s-share%d" % (k, r), S[i][r], (tag, k, r))
    return e


def make_judge(ws, seen):
    counter = [0]

    def judge(case, outs):
        vals, f = agree(outs)
        if f:
            return Fail("history/diverged", "%s on %s" % (f.msg, brief_case(case)))
        if vals is None:
            return Fail("history/raises", "raised %s: %s on %s" % (outs[0][1], outs[0][2], brief_case(case)))
        counter[0] += 1
        tracing, reqs, cached, files = False, [], {}, None
        for i, st in enumerate(case["steps"]):
            rs = [v[i][0] for v in vals]
            ev = sum(v[i][1] for v in vals)
            where = "step %d %s of %s" % (i, st[:4], brief_case(case))
            if st[0] == "req":
                e = tuple_check(st, rs, ws, seen, (counter[0], i))
                if e:
                    k = "fresh" if ("already used" in e or "twice" in e) else "relation"
                    return Fail("%s/%s" % (st[1], k), "%s; %s" % (e, where))
                key = repr(st[1:])
                if tracing:
                    reqs.append(key)
                elif cached.get(key, 0) > 0:
                    cached[key] -= 1
                    if ev:
                        return Fail("cache/unused", "a tuple prepared in advance was not used (%d messages); %s" % (ev, where))
            elif st[0] == "trace":
                tracing = st[1]
            elif st[0] == "trace_once":
                tracing = not reqs
            elif st[0] == "fill":
                for k in reqs:
                    cached[k] = cached.get(k, 0) + 1
            elif st[0] == "save":
                files = (reqs or (files[0] if files else []), cached if cached else (files[1] if files else {}))
                reqs, cached = [], {}
            elif st[0] == "load":
                if files:
                    reqs = files[0] or reqs
                    cached = dict(files[1]) if files[1] else cached
                files = None
            elif st[0] == "op":
                want = eval(st[1], dict(ex.env_common(), **dict(zip("abc", [ex.ref_operand(s) for s in st[2]]))))
                d = ex.same_everywhere(rs) or ex.close(rs[0], want.double(), 12 * 2.0 ** -16)
                if d:
                    return Fail("op/value", "%s; %s" % (d, where))
                cached = {}  # the operation may have used them
                if tracing:
                    reqs.append("op")
        return None

    return judge


def brief_case(case):
    return [s[:4] for s in case["steps"]]


# ------------------------------------------------------------------ generator
def request(r):
    k = r.randrange(12)
    sz = lambda *a: torch.Size(a)
    dev = {"device": torch.device("cpu")}
    if k < 2:
        s = r.choice([(3,), (2, 2), (), (1, 3), (0,), (5, 7)])
        s2 = r.choice([s, s, (1,) if s else ()])
        return ("req", "generate_additive_triple", (sz(*s), sz(*s2), "mul"), dev)
    if k == 2:
        a, b = r.choice([((2, 3), (3, 2)), ((3,), (3, 2)), ((2, 2, 3), (3, 2)), ((2,), (2,))])
        return ("req", "generate_additive_triple", (sz(*a), sz(*b), "matmul"), dev)
    if k == 3:
        return ("req", "generate_additive_triple", (sz(1, 2, 5, 5), sz(2, 2, 2, 2), r.choice(["conv2d", "conv_transpose2d"])),
                dict(dev, **r.choice([{"stride": 1}, {"stride": 2}, {"padding": 1}, {"stride": 2, "padding": 1}])))
    if k == 4:
        return ("req", "generate_additive_triple", (sz(1, 2, 5), sz(2, 2, 2), r.choice(["conv1d", "conv_transpose1d"])),
                dict(dev, **r.choice([{"stride": 1}, {"dilation": 2}])))
    s = r.choice([(3,), (2, 2), (), (4, 5), (0,), (1,)])
    if k < 7:
        return ("req", "square", (sz(*s),), dev)
    if k < 9:
        s2 = r.choice([s, s, (3,) + tuple(s)])
        return ("req", "generate_binary_triple", (sz(*s), sz(*s2)), dev)
    if k < 11:
        return ("req", "wrap_rng", (sz(*s),), dev)
    return ("req", "B2A_rng", (sz(*s),), dev)


def confusable(r):
    """different requests that resemble each other: every tuple must fit the request it answers"""
    sz = lambda *a: torch.Size(a)
    dev = {"device": torch.device("cpu")}
    add = lambda a, b, o, **k: ("req", "generate_additive_triple", (sz(*a), sz(*b), o), dict(dev, **k))
    fams = [
        [add((1, 2, 5, 5), (2, 2, 2, 2), o, **k) for o in ("conv2d", "conv_transpose2d") for k in
         ({"stride": 1, "padding": 0}, {"stride": 2, "padding": 0}, {"stride": 1, "padding": 1}, {"stride": 1, "padding": 0, "dilation": 2 if o == "conv2d" else 1},
          {"stride": (1, 2), "padding": 0}, {"stride": (2, 1), "padding": 0}, {"stride": 2}, {"padding": 2 if o == "conv2d" else 1}, {})],
        [add((1, 2, 6), (2, 2, 2), o, **k) for o in ("conv1d", "conv_transpose1d") for k in
         ({"stride": 1, "padding": 1}, {"stride": 2, "padding": 1}, {"stride": 2, "padding": 0}, {"padding": 1, "stride": 2}, {"dilation": 2, "padding": 1}, {"dilation": 1, "padding": 2})],
        [add((2, 2), (2, 2), "mul"), add((2, 2), (2, 2), "matmul"), add((2, 2), (1, 2), "mul"), add((1, 2), (2, 2), "mul"), add((2,), (2, 2), "matmul"), add((2, 2), (2,), "matmul"), add((2, 2), (2, 1), "matmul")],
        [("req", n, (sz(*s),), dev) for n in ["square", "wrap_rng", "B2A_rng"] for s in ((2, 3), (3, 2), (6,), (1, 6))],
        [("req", "generate_binary_triple", (sz(*s), sz(*t)), dev) for s, t in [((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((1, 3), (2, 3))]],
        [("req", "square", (sz(2, 2),), k) for k in ({}, dev, {"device": None}, {"device": "cpu"})],
    ]
    f = r.choice(fams + fams[:1])
    return r.sample(f, min(len(f), r.choice([2, 3, 4])))


def op(r, ws):
    a = grid(r, (2, 2), -6, 6)
    b = grid(r, (2, 2), -6, 6)
    return ("op", r.choice(["a*b", "a.square()", "a.matmul(b)", "a.max()", "a.relu()", "a*b+a", "a.abs()", "a/3", "a.mean()"]),
            [enc(a, src=r.randrange(ws)), enc(b, src=r.randrange(ws))])


def history(r, ws):
    """trace / fill / save / load / consume histories over a small pool of requests, so that hits, misses and
    requests beyond the prepared number all happen"""
    pool = confusable(r) if r.random() < 0.4 else [request(r) for _ in range(r.choice([1, 2, 3, 4]))]
    ops = [op(r, ws) for _ in range(2)]
    st = []

    def some(n):
        for _ in range(n):
            u = r.random()
            st.append(r.choice(ops) if u < 0.2 else request(r) if u < 0.3 else r.choice(pool))

    some(r.choice([0, 2]))
    for _ in range(r.choice([1, 1, 2])):
        st.append(("trace", True) if r.random() < 0.7 else ("trace_once",))
        some(r.choice([1, 2, 4]))
        if r.random() < 0.3:
            st.append(("save",))
            if r.random() < 0.7:
                st.append(("load",))
        if r.random() < 0.5:
            st.append(("trace", False))
        st.append(("fill",))
        if r.random() < 0.3:
            st.append(("fill",))
        if r.random() < 0.5:
            if r.random() < 0.4:
                st.append(("trace", False))
                some(1)
            st.append(("save",))
            if r.random() < 0.3:
                some(1)
            st.append(("load",))
        st.append(("trace", False))
        some(r.choice([2, 4, 8]))
        if r.random() < 0.4:
            st.append(("load",))  # nothing left on disk: must not bring used tuples back
            some(2)
        if r.random() < 0.4:
            st.append(("seed", 7))
            some(2)
    return {"steps": st}


def plain(r, ws):
    st = []
    for _ in range(12):
        st.append(request(r))
        if r.random() < 0.25:
            st.append(("seed", 7))
    return {"steps": st}


def check(ctx):
    ctx.rule = ("A case is a history of tuple requests, tracing, filling, saving, loading and consuming; the shares of every tuple at all parties are joined and checked "
                "with exact integers; every 64-bit hidden value and share is compared with everything handed out before in all sessions of that configuration.")
    ctx.assumptions = ["generators of the trusted first party stay secret at that party (trust model of the provider)"]
    jobs, seens = [], []
    for ws, cfg, k in [(2, None, 1.0), (3, None, .6), (2, {"mpc.provider": "TTP"}, 1.0), (3, {"mpc.provider": "TTP"}, .5), (1, None, .3), (4, None, .3)]:
        seen = Seen()
        lab = "%dPC%s" % (ws, "-TTP" if cfg else "")
        seens.append((lab, seen))
        judge = make_judge(ws, seen)
        for session in range(2 if ctx.quick else 4):
            r = ctx.rng(lab, session)
            r.single = ws == 1
            n = int(ctx.n(22, 700) * k)
            cases = [plain(r, ws)] + [history(r, ws) for _ in range(n)] + [plain(r, ws)]
            jobs.append(dict(label="%s/session%d" % (lab, session), ws=ws, cfg=cfg, cases=cases, mod=ME, fn="run", judge=judge,
                             opts={"torch_seed": 1234}, sig=lambda c: repr(brief_case(c))))
    ctx.drive(jobs, reruns=3, parallel=4)
    for lab, seen in seens:
        ctx.count("values_compared_for_reuse", len(seen.vals))
        b = seen.biased()
        if b:
            ctx.violation(Fail("uniform", "%s (%s)" % (b, lab)), lab, {"label": lab})
