"""C21: the correlated randomness handed to one party is corrupted while active security is on; every party must refuse the
result.  Honest runs must succeed with right results, and what the check opens is examined for the secrets of the triples."""
import random

import torch

from .. import ex
from ..core import Fail, agree
from ..gen import grid

ME = "vf.checks.c21"
MIN_EVAL = 80
M64 = 1 << 64

OPS = {
    "mul": ("x * y", [((4,), (4,)), ((2, 3), (2, 3)), ((2, 1, 3), (4, 1)), ((3,), (1,)), ((), ()), ((1,), (2, 2)), ((2, 3), ())]),
    "inplace": ("x.mul_(y)", [((4,), (4,)), ((2, 3), (1, 3))]),
    "matmul": ("x.matmul(y)", [((2, 3), (3, 4)), ((3, 3), (3, 3)), ((1, 5), (5, 1)), ((2, 2, 3), (2, 3, 2)), ((2, 2, 3), (3, 2)), ((4,), (4, 2)), ((2, 4), (4,)), ((2, 1), (1, 3))]),
    "conv1d": ("x.conv1d(y)", [((1, 1, 5), (1, 1, 2)), ((2, 2, 4), (3, 2, 2))]),
    "conv1dp": ("x.conv1d(y, padding=1)", [((1, 2, 4), (2, 2, 3))]),
    "conv2d": ("x.conv2d(y)", [((1, 1, 3, 3), (1, 1, 2, 2)), ((2, 2, 3, 4), (2, 2, 2, 1))]),
    "conv2dg": ("x.conv2d(y, groups=2, padding=(1, 0))", [((1, 2, 3, 3), (2, 1, 2, 2))]),
    "convt1d": ("x.conv_transpose1d(y, stride=2)", [((1, 2, 3), (2, 1, 2))]),
    "convt2d": ("x.conv_transpose2d(y)", [((1, 1, 2, 2), (1, 2, 2, 2))]),
    "square-by-mul": ("x * x", [((3, 2), None)]),
    "div": ("x / (y * y + 1)", [((2,), (2,))]),
    "poly": ("x.polynomial([1, 2, 0.5])", [((3,), (3,))]),
    "reciprocal": ("(y * y + 1).reciprocal()", [((2,), (2,))]),
    "compare": ("x > y", [((3,), (3,))]),
    "relu": ("x.relu()", [((3,), (3,))]),
    "max": ("x.max()", [((3,), (3,))]),
    "where": ("x.where(x > y, y)", [((2,), (2,))]),
    "prod": ("x.prod()", [((3,), (3,))]),
    "dot": ("x.dot(y)", [((4,), (4,))]),
    "linear": ("x.matmul(y) * x.matmul(y)", [((2, 3), (3, 2))]),
}


class Corrupt:
    """Adds an amount to one component of the k-th triple this party receives."""

    def __init__(self, plan, rank):
        import crypten.mpc as mpc

        self.plan, self.rank = plan or [], rank
        self.prov = mpc.get_default_provider()
        self.n = 0
        self.hits = 0
        self.log = []

    def __enter__(self):
        f = self.prov.generate_additive_triple

        def g(*a, **k):
            res = f(*a, **k)
            seen = set()
            for (call, comp, pos, amount, who) in self.plan:
                if call == self.n and (call, comp) in seen and res[comp].share.numel() == 1:
                    continue  # would cancel in the same element
                seen.add((call, comp))
                if call == self.n and who == self.rank:
                    s = res[comp].share
                    if s.numel():
                        new = s.clone().reshape(-1)
                        new[pos % s.numel()] += amount
                        res[comp].share = new.reshape(s.shape)
                        self.hits += 1
            self.log.append([r.share.clone() for r in res])
            self.n += 1
            return res

        self.prov.__dict__["generate_additive_triple"] = g
        return self

    def __exit__(self, *a):
        self.prov.__dict__.pop("generate_additive_triple", None)


def run(case):
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg

    from .. import instrument

    c = comm.get()
    rank, ws = c.get_rank(), c.get_world_size()
    x = crypten.cryptensor(case["x"])
    y = crypten.cryptensor(case["y"], src=ws - 1) if case["y"] is not None else x
    env = {"x": x, "y": y, "M": crypten, "torch": torch}
    res = {}
    with cfg.temp_override({"mpc.active_security": True}):
        with Corrupt(None, rank) as p:
            if case["mode"] == "open":
                rec = instrument.record(payload=True)
            r0 = eval(case["expr"], dict(env, x=x.clone(), y=y.clone()))
            if case["mode"] == "open":
                instrument.stop_record()
        n = p.n
        res["triples"] = n
        res["honest"] = ex.dec(r0)
        if case["mode"] == "open":
            res["opened"] = [t.clone() for e in rec if e["op"] == "all_reduce" for t in e["post"]]
            res["log"] = p.log
        outs = []
        for plan in case.get("plans", []):
            pl = [(int(call * n) if call < 1 else n - 1, comp, pos, am, who) for (call, comp, pos, am, who) in plan]
            if case["mode"] == "pair" and n >= 2 and plan[0][0] == 0:  # both triples of one multiplication
                base = 2 * random.Random(str(plan)).randrange(n // 2)
                pl = [(base + (j % 2), comp, pos, am, who) for j, (call, comp, pos, am, who) in enumerate(plan)]
            with Corrupt(pl, rank) as q:
                try:
                    v = eval(case["expr"], dict(env, x=x.clone(), y=y.clone()))
                    o = ("ok", ex.dec(v))
                except Exception as e:  # noqa
                    o = ("err", type(e).__name__, str(e)[:100])
            hits = sum(c.all_gather(torch.tensor([q.hits]))).item() if ws > 1 else q.hits
            # the parties go on: a new multiplication is right
            a = crypten.cryptensor(torch.tensor([1.5, -2.0]))
            nxt = (a * a).get_plain_text()
            outs.append((o, hits, bool((nxt - torch.tensor([2.25, 4.0])).abs().max() < 1e-3), pl))
        res["outs"] = outs
    # the operands of failed multiplications still have their values
    res["x"] = x.get_plain_text()
    return res


def ref(case):
    E = {"x": case["x"].double(), "y": case["y"].double() if case["y"] is not None else case["x"].double()}
    e = case["expr"].replace("._tensor", "")
    x, y = E["x"], E["y"]
    F = torch.nn.functional
    if "conv" in e:
        import re

        m = re.match(r"x\.(conv\w*)\(y(.*)\)$", e)
        return eval("F.%s(x, y%s)" % (m.group(1), m.group(2)), {"F": F, "x": x, "y": y})
    if "polynomial" in e:
        return x + 2 * x**2 + 0.5 * x**3
    if "where" in e:
        return torch.where(x > y, x, y)
    if e == "x > y":
        return (x > y).double()
    return eval(e.replace(".mul_(", ".mul("), {"x": x, "y": y})


def judge(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("honest:" + case["op"], "`%s` on shapes %s with active security and correct triples raised %s: %s" % (case["expr"], case["shapes"], outs[0][1], outs[0][2:]))
    w = ref(case)
    for r, v in enumerate(vals):
        got = v["honest"].double()
        if got.shape != w.shape or got.numel() and float((got - w).abs().max()) > 2e-2 * (1 + float(w.abs().max())):
            return Fail("honest:" + case["op"], "party %d: `%s` with active security gives %s instead of %s" % (r, case["expr"], got.flatten()[:4], w.flatten()[:4]))
        if float((v["x"] - case["x"]).abs().max()) > 1e-4:
            return Fail("operand", "operands changed by a multiplication")
    for k, plan in enumerate(case.get("plans", [])):
        rows = [v["outs"][k] for v in vals]
        if any(not row[2] for row in rows):
            return Fail("after", "after a corrupted `%s` later results are wrong" % case["expr"])
        if rows[0][1] == 0:
            continue
        if any(row[0][0] == "ok" for row in rows):
            return Fail("undetected:" + case["op"], "`%s` on shapes %s: triples corrupted as %s (call, component, position, amount, party) and the parties ended %s (%s)" % (
                case["expr"], case["shapes"], rows[0][3], [row[0][0] for row in rows], [row[0][1].flatten()[:3] if row[0][0] == "ok" else row[0][1:] for row in rows]))
    if case["mode"] == "open":
        return opened(case, vals)
    return None


def opened(case, vals):
    """Opened values are masked: none is a secret of a triple or of the operands, nor a constant multiple of one."""
    ws = len(vals)
    tot = lambda i, j: sum(v["log"][i][j].to(torch.int64) for v in vals)  # noqa
    secrets = []
    for i in range(vals[0]["triples"]):
        secrets += [("component %s of triple %d" % ("abc"[j], i), tot(i, j).flatten()) for j in range(3)]
    secrets.append(("x", torch.trunc(case["x"].double() * 65536).long().flatten()))
    if case["y"] is not None:
        secrets.append(("y", torch.trunc(case["y"].double() * 65536).long().flatten()))
    op = [t.flatten().to(torch.int64) for t in vals[0]["opened"]]
    for name, s in secrets:
        for k, o in enumerate(op):
            if o.numel() != s.numel() or o.numel() < 4 or not bool((o != 0).any()):
                continue
            if torch.equal(o, s) or torch.equal(o, -s):
                return Fail("open", "`%s`: opened value %d is %s" % (case["expr"], k, name))
            # o_i * s_j == o_j * s_i (mod 2^64) for all pairs: a constant multiple
            if bool((o[0] * s == o * s[0]).all()) and bool((o[1] * s == o * s[1]).all()):
                return Fail("open", "`%s`: opened value %d is a multiple of %s" % (case["expr"], k, name))
    n = vals[0]["triples"]
    seen = set()
    for i in range(n):
        for j in range(2):
            key = tuple(tot(i, j).flatten().tolist()[:4])
            if len(key) == 4 and key in seen:
                return Fail("reuse", "`%s`: the same triple was used for the check and for the product" % case["expr"])
            seen.add(key)
    if n and n % 2:
        return Fail("sacrifice", "`%s`: %d triples were drawn, so some product had none to check it with" % (case["expr"], n))
    # masked values use the whole range
    for k, o in enumerate(op):
        if o.numel() >= 40 and bool((o != 0).any()):
            top = int((o < 0).sum())
            if not 1 <= top <= o.numel() - 1:
                return Fail("open", "`%s`: opened value %d has a constant sign over %d elements" % (case["expr"], k, o.numel()))
    return None


def amount(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice([1, -1])
    if k == 1:
        return 2 * r.randrange(-(2**62) // 2, 2**61) + 1
    if k == 2:
        return r.choice([2, 4, 16, 65536, 1 << 20, -(1 << 16), 3 << 16])
    if k == 3:
        return (1 << 62) + 1
    return r.randrange(1, 1000) * r.choice([1, -1])


def gen(r, ws, n, keys):
    for i in range(n):
        op = keys[i % len(keys)]
        expr, shapes = OPS[op]
        sx, sy = r.choice(shapes)
        simple = op not in ("div", "poly", "reciprocal", "compare", "relu", "max", "where", "prod", "linear")
        mode = r.choice(["one", "one", "pair", "open"])
        c = {"op": op, "expr": expr, "shapes": (sx, sy), "mode": mode, "x": grid(r, sx, 2.0**-10, 4), "y": grid(r, sy, 2.0**-10, 4) if sy is not None else None, "plans": []}
        if op in ("max", "where", "compare", "relu"):
            c["x"], c["y"] = torch.round(c["x"] * 4) / 4 + 0.125, torch.round(c["y"] * 4) / 4
        for _ in range(3 if simple else 2):
            who = r.randrange(ws)
            if r.random() < .25:  # changes that cancel in a sum
                d, at, comp, pos = amount(r), r.random(), r.choice([2, 2, 0, 1]), r.randrange(64)
                c["plans"].append([(at, comp, pos, d, who), (at, comp, pos + 1, -d, r.choice([who, r.randrange(ws)]))])
            elif mode == "pair":
                d, k, comp = amount(r), r.choice([1, 1, -1, 2, 3, 0]), r.choice([2, 2, 0, 1])
                pos = r.randrange(64)
                c["plans"].append([(0, comp, pos, d, who), (0, comp, pos, d * k % (1 << 62), r.randrange(ws))])
            else:
                c["plans"].append([(r.random(), r.randrange(3), r.choice([0, -1, r.randrange(64)]), amount(r), who)])
        if mode == "open":
            c["plans"] = c["plans"][:1]
            if simple and op == "mul":
                c["x"], c["y"] = grid(r, (6, 8), 2.0**-10, 4), grid(r, (6, 8), 2.0**-10, 4)
                c["shapes"] = ((6, 8), (6, 8))
            if op == "matmul":
                c["x"], c["y"] = grid(r, (6, 8), 2.0**-10, 4), grid(r, (8, 6), 2.0**-10, 4)
                c["shapes"] = ((6, 8), (8, 6))
        yield c


def check(ctx):
    ctx.rule = ("A case runs one expression honestly and then with the correlated randomness of one multiplication corrupted at one party (component, position, amount), all under active security; every party must raise, and must go on correctly afterwards. "
                "Some cases record what is opened and compare it with the joined secrets of the triples.")
    ctx.assumptions = ["differences with more than 20 factors of two are excluded: the check works modulo 2^64, where a random multiplier hides them with noticeable probability"]
    keys = list(OPS)
    jobs = []
    for ws, cfg, k in [(2, None, 1.0), (3, None, 1.0), (4, None, .4), (2, {"mpc.provider": "TTP"}, .5), (3, {"mpc.provider": "TTP"}, .3), (1, None, .2)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        use = keys if ws > 1 else [q for q in keys if q not in ("compare", "relu", "max", "where")]
        cs = list(gen(r, ws, int(ctx.n(3 * len(keys), 60 * len(keys)) * k), use))
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cs, mod=ME, fn="run", judge=judge, sig=lambda c: (c["op"], c["shapes"], c["mode"], str(c["plans"]))))
    ctx.drive(jobs, reruns=3, parallel=4)
    ctx.count("corruptions", sum(len(c["plans"]) for j in jobs for c in j["cases"]))
