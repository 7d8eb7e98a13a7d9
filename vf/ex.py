"""Executes expression cases inside a party, and their plaintext reference in the check process.

A case is a dict:
  expr : python expression over operands a, b, c, d and the module M (crypten here, torch in the reference)
  ref  : optional reference expression (default: expr)
  ops  : operand specs, see mk()
  cfg  : optional configuration overrides active while the case runs
  tol  : absolute tolerance on the decrypted result
"""
import torch


def enc(t, src=0, precision=None, ptype=None, grad=False):
    return {"k": "enc", "t": t, "src": src, "precision": precision, "ptype": ptype, "grad": grad}


def pub(t):
    return {"k": "pub", "t": t}


def setitem(x, idx, v):
    x[idx] = v
    return x


def iop(x, op, y):
    if op == "+":
        x += y
    elif op == "-":
        x -= y
    elif op == "*":
        x *= y
    elif op == "/":
        x /= y
    elif op == "^":
        x ^= y
    elif op == "&":
        x &= y
    elif op == "|":
        x |= y
    return x


def garbage(t, salt):
    """What a non-source party passes: same shape and type, different content."""
    g = torch.Generator()
    g.manual_seed(salt)
    if t.dtype == torch.bool:
        return torch.rand(t.shape, generator=g) > 0.5
    if t.dtype.is_floating_point:
        return (torch.rand(t.shape, generator=g) * 20 - 10).to(t.dtype)
    return torch.randint(-9 if t.dtype != torch.uint8 else 0, 9, t.shape, generator=g).to(t.dtype)


def prelay(t, lay):
    """A tensor from which unlay() makes t again, in a memory layout that is not contiguous."""
    if lay == 1 and t.dim() >= 2:
        return t.transpose(0, -1).contiguous()
    if lay == 2 and t.dim() >= 1:
        return t.repeat_interleave(2, dim=-1)
    return t.clone()


def unlay(x, lay):
    if lay == 1 and x.dim() >= 2:
        return x.transpose(0, -1)
    if lay == 2 and x.dim() >= 1:
        return x[..., ::2]
    return x


def layouts(r, cases, p=0.12):
    """Give some operands of some cases a memory layout that is not contiguous."""
    for c in cases:
        if "ops" in c and ".view(" not in c["expr"] and r.random() < p:
            c = dict(c, ops=[dict(o, lay=r.choice([0, 1, 1, 2])) if isinstance(o, dict) and torch.is_tensor(o["t"]) and "lay" not in o
                             else o for o in c["ops"]])
        yield c


def mk(spec, rank, salt=0):
    import crypten

    if not isinstance(spec, dict):
        return spec
    lay = spec.get("lay", 0)
    if spec["k"] == "pub":
        v = spec["t"]
        return unlay(prelay(v, lay), lay) if torch.is_tensor(v) else v
    t = spec["t"]
    src = spec["src"]
    if torch.is_tensor(t):
        t = t.clone()
        if rank != src:
            t = garbage(t, 1000 + rank + salt)
        t = prelay(t, lay)
    kw = {}
    if spec.get("ptype"):
        kw["ptype"] = getattr(crypten.mpc, spec["ptype"])
    if spec.get("precision") is not None:
        kw["precision"] = spec["precision"]
    if spec.get("grad"):
        kw["requires_grad"] = True
    x = crypten.cryptensor(t, src=src, **kw)
    return unlay(x, lay) if torch.is_tensor(t) else x


def dec(v):
    import crypten

    if crypten.is_encrypted_tensor(v):
        return v.get_plain_text()
    if isinstance(v, torch.Size):
        return v
    if isinstance(v, (list, tuple)):
        return [dec(u) for u in v]
    if torch.is_tensor(v):
        return v.detach().clone()
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    if hasattr(v, "reveal"):
        return v.reveal()
    return repr(type(v))


def env_common():
    return {"torch": torch, "setitem": setitem, "iop": iop, "F": torch.nn.functional}


def override(cfg_over):
    from contextlib import nullcontext

    from crypten.config import cfg

    return cfg.temp_override(cfg_over) if cfg_over else nullcontext()


def run(case):
    """Party side."""
    import crypten
    import crypten.communicator as comm

    rank = comm.get().get_rank()
    with override(case.get("cfg")):
        ops = [mk(s, rank, i) for i, s in enumerate(case["ops"])]
        env = env_common()
        env.update({"M": crypten, "crypten": crypten})
        for name, o in zip("abcdefgh", ops):
            env[name] = o
        pubs = [o.clone() if torch.is_tensor(o) else None for o in ops]
        out = eval(case["expr"], env)
        res = {"out": dec(out)}
        res["after"] = [o.get_plain_text() if crypten.is_encrypted_tensor(o) else None for o in ops]
        res["pub_same"] = [
            True if p is None else (p.shape == o.shape and p.dtype == o.dtype and torch.equal(p, o))
            for p, o in zip(pubs, ops)
        ]
    return res


def ref_operand(spec, dtype=torch.float64):
    if not isinstance(spec, dict):
        return spec
    t = spec["t"]
    if torch.is_tensor(t):
        t = t.clone()
        if spec["k"] == "enc" or t.dtype.is_floating_point:
            t = t.to(dtype)
    elif spec["k"] == "enc":
        t = torch.tensor(t, dtype=dtype)
    return t


def reference(case, dtype=torch.float64):
    env = env_common()
    env["M"] = torch
    ops = [ref_operand(s, dtype) for s in case["ops"]]
    for name, o in zip("abcdefgh", ops):
        env[name] = o
    out = eval(case.get("ref") or case["expr"], env)
    return out, ops


def flat(v):
    if isinstance(v, (list, tuple)) and not isinstance(v, torch.Size):
        r = []
        for u in v:
            r.extend(flat(u))
        return r
    return [v]


def close(got, want, tol, rel=2.0 ** -22):
    """None if got matches want within tol (plus float32 rounding of the decrypted value)."""
    got, want = flat(got), flat(want)
    if len(got) != len(want):
        return "expected %d results, got %d" % (len(want), len(got))
    for g, w in zip(got, want):
        if not torch.is_tensor(w):
            if torch.is_tensor(g):
                return "got tensor %s, expected %r" % (g, w)
            if g != w and not (isinstance(w, float) and abs(g - w) <= tol):
                return "got %r, expected %r" % (g, w)
            continue
        if not torch.is_tensor(g):
            return "got %r, expected tensor %s" % (g, w)
        if tuple(g.shape) != tuple(w.shape):
            return "got shape %s, expected %s" % (tuple(g.shape), tuple(w.shape))
        if g.numel() == 0:
            continue
        gd, wd = g.to(torch.float64), w.to(torch.float64)
        bound = tol + rel * wd.abs()
        err = (gd - wd).abs()
        bad = ~(err <= bound)
        if bad.any():
            i = int(bad.flatten().nonzero()[0])
            return "element %d of %s: got %r expected %r (bound %.3g); worst error %.6g, %d of %d elements off" % (
                i, tuple(g.shape), float(gd.flatten()[i]), float(wd.flatten()[i]), float(bound.flatten()[i]),
                float(err[~err.isnan()].max()) if (~err.isnan()).any() else float("nan"), int(bad.sum()), g.numel())
    return None


def same_everywhere(vals):
    """All parties decrypted the same thing, bit for bit."""
    base = flat(vals[0])
    for r, v in enumerate(vals[1:], 1):
        v = flat(v)
        if len(v) != len(base):
            return "rank %d returned %d results, rank 0 %d" % (r, len(v), len(base))
        for p, q in zip(base, v):
            if torch.is_tensor(p):
                if not torch.is_tensor(q) or p.shape != q.shape or p.dtype != q.dtype:
                    return "rank %d returned a different tensor type or shape than rank 0" % r
                if not torch.equal(torch.nan_to_num(p.double()), torch.nan_to_num(q.double())):
                    return "rank %d decrypted %s, rank 0 decrypted %s" % (r, q.flatten()[:8], p.flatten()[:8])
            elif p != q:
                return "rank %d returned %r, rank 0 %r" % (r, q, p)
    return None


def judge(case, outs, mutates=False):
    """Standard oracle: all parties finish, agree, match the plaintext reference, and leave the
    operands as they were."""
    from .core import Fail, agree, err_of

    key = case.get("key", case["expr"])
    vals, f = agree(outs)
    if f:
        return Fail(key + "/diverged", "%s on %s" % (f.msg, desc(case)))
    try:
        want, ops_after = reference(case)
    except Exception as e:  # the plaintext operation itself is invalid
        if vals is None:
            return None
        return Fail(key + "/accepts", "plaintext reference raises %r but the encrypted op returned; %s" % (e, desc(case)))
    if vals is None:
        e = err_of(outs)
        return Fail(key + "/raises", "raised %s: %s on %s" % (e[1], e[2], desc(case)))
    d = same_everywhere([v["out"] for v in vals])
    if d:
        return Fail(key + "/disagree", "%s; %s" % (d, desc(case)))
    d = close(vals[0]["out"], want, case.get("tol", 0.0), case.get("rel", 2.0 ** -22))
    if d:
        return Fail(key + "/value", "%s; %s" % (d, desc(case)))
    if not case.get("no_after"):
        for i, (av, sp) in enumerate(zip(vals[0]["after"], case["ops"])):
            if av is None:
                continue
            w = ops_after[i] if torch.is_tensor(ops_after[i]) else torch.tensor(ops_after[i])
            d = close(av, w, case.get("after_tol", case.get("tol", 0.0)), case.get("rel", 2.0 ** -22))
            if d:
                return Fail(key + "/operand", "operand %d after the call: %s; %s" % (i, d, desc(case)))
        for r, v in enumerate(vals):
            if not all(v["pub_same"]):
                if case.get("pub_mutates"):
                    continue
                return Fail(key + "/public-operand", "public operand modified on rank %d; %s" % (r, desc(case)))
    return None


def desc(case):
    def s(o):
        if isinstance(o, dict):
            t = o["t"]
            body = "%s %s" % (tuple(t.shape), t.flatten()[:6].tolist()) if torch.is_tensor(t) else repr(t)
            extra = "" if o["k"] == "pub" else " src=%s prec=%s" % (o.get("src"), o.get("precision"))
            extra += " layout=%d" % o["lay"] if o.get("lay") else ""
            return "%s[%s%s]" % (o["k"], body, extra)
        return repr(o)

    return "%s over %s%s" % (case["expr"], ", ".join(s(o) for o in case["ops"]),
                             " cfg=%s" % case["cfg"] if case.get("cfg") else "")


def sig(case):
    """Distinctness signature: expression, operand kinds and shapes, configuration."""
    def s(o):
        if isinstance(o, dict):
            t = o["t"]
            if torch.is_tensor(t):
                return (o["k"], tuple(t.shape), str(t.dtype), o.get("src"), o.get("precision"), o.get("ptype"), o.get("lay"),
                        tuple(round(float(v), 6) for v in t.flatten()[:4].double()) if t.dtype != torch.bool else tuple(t.flatten()[:4].tolist()))
            return (o["k"], repr(t))
        return repr(o)

    return (case["expr"], tuple(s(o) for o in case["ops"]), repr(case.get("cfg")))
