"""C01: what the source party encrypts is what every party decrypts."""
import math
from fractions import Fraction

import numpy as np
import torch

from ..core import Fail, agree, err_of

MIN_EVAL = 300
ME = "vf.checks.c01"

DT = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16, "bf16": torch.bfloat16, "i64": torch.int64,
      "i32": torch.int32, "i16": torch.int16, "i8": torch.int8, "u8": torch.uint8}


def build(case, rank):
    """The object this party passes: the source's value, or something unrelated of the same size."""
    kind, shape, vals = case["kind"], case["shape"], case["vals"]
    if rank != case["src"]:
        n = len(vals)
        vals = [((i * 7 + rank * 3) % 11 - 5) for i in range(n)]
        if kind == "u8":
            vals = [abs(v) for v in vals]
    if kind in DT:
        return torch.tensor(vals, dtype=torch.float64 if kind[0] in "fb" else torch.int64).to(DT[kind]).view(shape)
    if kind == "nc":  # non-contiguous
        t = torch.tensor(vals, dtype=torch.float64).to(torch.float32).view(shape)
        return t.t().contiguous().t() if t.dim() == 2 else t
    if kind == "py":
        return vals[0] if rank == case["src"] else type(case["vals"][0])(vals[0])
    if kind == "list":
        return nest(vals, shape)
    if kind == "np64":
        return np.array(vals, dtype=np.float64).reshape(shape)
    if kind == "np32":
        return np.array(vals, dtype=np.float32).reshape(shape)
    if kind == "npi":
        return np.array(vals, dtype=np.int64).reshape(shape)
    raise ValueError(kind)


def nest(vals, shape):
    if len(shape) == 1:
        return list(vals)
    k = len(vals) // shape[0]
    return [nest(vals[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


def snapshot(x):
    if torch.is_tensor(x):
        return x.clone()
    if isinstance(x, np.ndarray):
        return x.copy()
    import copy

    return copy.deepcopy(x)


def same(a, b):
    if torch.is_tensor(a):
        return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    return a == b


def run(case):
    import crypten
    import crypten.communicator as comm

    rank = comm.get().get_rank()
    x = build(case, rank)
    how = case["how"]
    if how == "bsize" and rank != case["src"]:
        x = torch.empty(0)
    keep = snapshot(x)
    kw = {"src": case["src"]}
    if case["ptype"] == "binary":
        kw["ptype"] = crypten.mpc.binary
    elif case["precision"] is not None:
        kw["precision"] = case["precision"]
    if how in ("bsize", "bsize_full"):
        kw["broadcast_size"] = True
    if how == "prim":
        from crypten.mpc.primitives import ArithmeticSharedTensor, BinarySharedTensor

        kw.pop("ptype", None)
        if case["ptype"] == "binary":
            c = BinarySharedTensor(x if rank == case["src"] else None, size=tuple(case["shape"]), **kw)
        else:
            c = ArithmeticSharedTensor(x if rank == case["src"] else None, size=tuple(case["shape"]), **kw)
    elif how == "mpc":
        c = crypten.mpc.MPCTensor(x, **kw)
    elif how == "grad":
        c = crypten.cryptensor(x, requires_grad=True, **kw)
    else:
        c = crypten.cryptensor(x, **kw)
    raw = c.reveal()
    plain = c.get_plain_text()
    again = c.clone().get_plain_text()
    dst = case.get("dst")
    to = c.get_plain_text(dst=dst) if dst is not None else None
    return {"raw": raw.clone(), "plain": plain, "again": again, "size": tuple(c.size()), "same": same(keep, x),
            "share_dtype": str(c.share.dtype), "to": to, "rank": rank}


def quantised(case):
    """The exact grid integers of the source's value."""
    p = 0 if case["ptype"] == "binary" else (16 if case["precision"] is None else case["precision"])
    x = build(case, case["src"])
    if isinstance(x, np.ndarray):
        x = torch.from_numpy(x)
    if torch.is_tensor(x):
        vs = x.flatten().to(torch.float64).tolist() if x.dtype.is_floating_point else x.flatten().tolist()
    else:
        vs = case["vals"]
        if case["kind"] == "list":  # lists are single precision
            vs = torch.tensor(vs, dtype=torch.float32).double().tolist()
    return [math.trunc(Fraction(v) * 2 ** p) for v in vs], p


def judge(case, outs):
    what = "%(ptype)s sharing of %(kind)s %(shape)s %(vals)s from party %(src)s, precision %(precision)s, %(how)s" % dict(
        case, vals=case["vals"][:6])
    key = "%s/%s" % (case["ptype"], case["kind"])
    vals, f = agree(outs)
    if f:
        return Fail(key + "/diverged", "%s: %s" % (what, f.msg))
    if vals is None:
        e = err_of(outs)
        return Fail(key + "/raises", "%s raised %s: %s" % (what, e[1], e[2]))
    q, p = quantised(case)
    shape = tuple(case["shape"])
    for r, v in enumerate(vals):
        if v["size"] != shape:
            return Fail(key + "/size", "%s: party %d sees size %s" % (what, r, v["size"]))
        if not v["same"]:
            return Fail(key + "/modified", "%s: the value passed by party %d was modified" % (what, r))
        if v["share_dtype"] != "torch.int64":
            return Fail(key + "/share-type", "%s: share of party %d has type %s" % (what, r, v["share_dtype"]))
        for name in ("raw", "plain", "again", "to"):
            t = v[name]
            if name == "to":
                if case.get("dst") is None:
                    continue
                if r != case["dst"]:
                    if t is not None and t.numel() and q and not case["tiny"] and \
                            torch.equal(t.double().flatten(), vals[case["dst"]]["plain"].double().flatten()):
                        return Fail(key + "/dst", "%s: party %d learned the value decrypted to %d" % (what, r, case["dst"]))
                    continue
            if tuple(t.shape) != shape:
                return Fail(key + "/shape", "%s: party %d decrypted %s of shape %s" % (what, r, name, tuple(t.shape)))
            if name == "raw" or p == 0:
                if not q:
                    continue
                if t.dtype.is_floating_point:
                    return Fail(key + "/type", "%s: integer value decrypted as %s" % (what, t.dtype))
                g = t.flatten().tolist()
                if g != q:
                    i = [a != b for a, b in zip(g, q)].index(True)
                    return Fail(key + "/value", "%s: party %d, %s element %d is %d, expected %d" % (what, r, name, i, g[i], q[i]))
                continue
            for i, (g, w) in enumerate(zip(t.flatten().double().tolist(), q)):
                w2 = Fraction(w, 2 ** p)
                d = abs(Fraction(g) - w2)
                if d > (0 if abs(w) < 2 ** 24 and p <= 24 else abs(w2) / 2 ** 22 + (0 if p <= 24 else Fraction(1, 2 ** 22))):
                    return Fail(key + "/value", "%s: party %d, %s element %d is %r, expected %r" % (what, r, name, i, g, float(w2)))
    return None


def values(r, kind, n, p):
    """Values in range for the kind and precision, boundary-biased."""
    lim = 2.0 ** (60 - p)
    out = []
    for _ in range(n):
        u = r.random()
        if kind in ("i64", "npi"):
            m = int(lim)
            v = r.choice([0, 1, -1, m - 1, -m, 65535, -65536, -65537, 2 ** 24 + 1, 2 ** 31]) if u < 0.5 else r.randint(-m, m - 1)
            v = max(-m, min(m - 1, v))
        elif kind in ("i32", "i16", "i8", "u8"):
            lo, hi = {"i32": (-2 ** 31, 2 ** 31 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i8": (-128, 127), "u8": (0, 255)}[kind]
            v = r.choice([lo, hi, 0, 1, lo + 1]) if u < 0.4 else r.randint(lo, hi)
        else:
            top = min(lim, 60000.0 if kind == "f16" else lim)
            s = 2.0 ** -p
            if u < 0.3:
                v = r.choice([0.0, s, -s, s / 2, -s / 2, 1.5 * s, -1.5 * s, 1.0, -1.0, 1 - s, s - 1, -0.0, 0.1, -0.1])
            elif u < 0.45:
                v = r.choice([-1, 1]) * r.choice([65534.5, 65535.25, 65536.0, 32767.99, 2.0 ** 30, top * 0.999])
            elif u < 0.75:
                v = r.uniform(-10, 10)
            else:
                v = r.choice([-1, 1]) * 2.0 ** r.uniform(-p - 2, math.log2(top))
            v = max(-top * 0.999, min(top * 0.999, v))
        out.append(v)
    return out


def gen(r, ws, n):
    kinds = ["f32"] * 5 + ["f64"] * 2 + ["f16", "i64", "i64", "i32", "i16", "i8", "u8", "py", "py", "list", "np64",
                                        "np32", "npi", "nc"]
    cases = []
    for k in range(n):
        kind = r.choice(kinds)
        ptype = "binary" if r.random() < 0.25 else "arithmetic"
        precision = r.choice([None, None, None, None, 0, 1, 8, 15, 16, 20, 24, 30]) if ptype == "arithmetic" else None
        p = 0 if ptype == "binary" else 16 if precision is None else precision
        if kind == "py":
            shape = ()
        elif kind == "list":
            shape = r.choice([(1,), (3,), (2, 3)])
        elif kind == "nc":
            shape = (r.choice([2, 3]), r.choice([2, 5]))
        else:
            shape = r.choice([(), (1,), (3,), (2, 3), (2, 1, 2), (1, 2, 2, 2), (0,), (2, 0), (17,), (1, 1, 1, 1, 3)])
        m = 1
        for d in shape:
            m *= d
        if kind == "py":
            vk = r.choice(["i64", "f64"])
        elif kind in ("np64", "np32", "nc", "list"):
            vk = "f32"
        else:
            vk = kind
        if vk in ("i32",) and p > 29:
            vk = kind = "i8"
        vals = values(r, vk, m, p)
        how = r.choice(["plain", "plain", "plain", "mpc", "grad"])
        if kind in DT and r.random() < 0.35:
            how = r.choice(["bsize", "bsize_full", "prim"])
        case = {"kind": kind, "shape": shape, "vals": vals, "src": r.randrange(ws), "ptype": ptype, "precision": precision,
                "how": how, "tiny": m < 3 or max(map(abs, vals), default=0) < 1}
        if ws > 1 and r.random() < 0.4:
            case["dst"] = r.randrange(ws)
        cases.append(case)
    return cases


def sig(c):
    return (c["kind"], c["shape"], tuple(c["vals"][:3]), c["src"], c["ptype"], c["precision"], c["how"], c.get("dst"))


def check(ctx):
    ctx.rule = ("A case is one encryption (value kind, shape, values, source, sharing type, precision, way to pass the size); "
                "non-trivial means the parties decrypted at least once and the oracle compared every element on every party.")
    ctx.assumptions = ["values stay within 60 bits of the ring after scaling", "decrypted floats are single precision by design"]
    jobs = []
    for ws, cfg, share in [(1, None, .6), (2, None, 1.6), (3, None, 1.2), (4, None, .8), (5, None, .4), (2, {"mpc.provider": "TTP"}, .5)]:
        lab = "%dPC%s" % (ws, "-TTP" if cfg else "")
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=gen(ctx.rng(lab), ws, int(ctx.n(220, 9000) * share)), mod=ME,
                         fn="run", judge=judge, sig=sig))
    ctx.drive(jobs)
