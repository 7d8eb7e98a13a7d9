"""C05: conversions between sharing types keep the value."""
import torch

from .. import ex
from ..core import Fail, agree, err_of
from ..gen import shape

MIN_EVAL = 150
ME = "vf.checks.c05"


def run(case):
    import crypten
    import crypten.communicator as comm
    from crypten.mpc.ptype import ptype as Ptype

    rank = comm.get().get_rank()
    t = case["t"] if rank == case["src"] else ex.garbage(case["t"], 7 + rank)
    kw = {"src": case["src"]}
    if case["start"] == "binary":
        x = crypten.cryptensor(t, ptype=Ptype.binary, **kw)
    else:
        x = crypten.cryptensor(t, precision=case["precision"], **kw)
    trail = []
    cur = x
    for step in case["steps"]:
        before = cur.reveal()
        pt = Ptype.binary if step["to"] == "binary" else Ptype.arithmetic
        kw = {k: step[k] for k in ("precision", "bits") if k in step}
        if step.get("form") == "kw":
            nxt = cur.to(ptype=pt, **kw)
        else:
            nxt = cur.to(pt, **kw)
        if step.get("mutate"):  # writing into the result must not reach the original
            if tuple(nxt.size()) != () and nxt.nelement():
                probe = nxt.clone()
                nxt.share[...] = 0
                nxt = probe
        after = cur.reveal()
        trail.append({"raw": nxt.reveal(), "prec": nxt.encoder._precision_bits, "ptype": nxt.ptype.name, "plain": nxt.get_plain_text(),
                      "same": torch.equal(before, after), "src_ptype": cur.ptype.name})
        cur = nxt
    return trail


def judge(case, outs):
    what = "%s %s shape %s values %s, steps %s" % (case["start"], case["precision"], tuple(case["t"].shape), case["t"].flatten()[:4].tolist(), case["steps"])
    vals, f = agree(outs)
    if f:
        return Fail("diverged", what + ": " + f.msg)
    if vals is None:
        e = err_of(outs)
        return Fail("raises", "%s raised %s: %s" % (what, e[1], e[2]))
    q = case["t"].clone() * (1 if case["start"] == "binary" else 2 ** case["precision"])
    p = 0 if case["start"] == "binary" else case["precision"]
    ty = case["start"]
    exact = True
    slack = 0
    for i, step in enumerate(case["steps"]):
        slack = 0
        if step["to"] != ty:
            if step["to"] == "arithmetic":
                b = step.get("bits")
                if b is not None and b < 64:
                    q = q & ((1 << b) - 1)
                np_ = 16 if step.get("precision") is None else step["precision"]
                if np_ >= p:
                    q = q * 2 ** (np_ - p)
                else:
                    q = torch.div(q, 2 ** (p - np_), rounding_mode="floor")
                    slack = 1 if case["ws"] == 1 else 2 if case["ws"] == 2 else case["ws"] + 1
                p = np_
            ty = step["to"]
        for r, v in enumerate(vals):
            o = v[i]
            if not o["same"]:
                return Fail("original", "%s: the tensor converted in step %d changed" % (what, i))
            if o["ptype"] != ty or o["prec"] != p:
                return Fail("type", "%s: step %d gives %s with precision %s, expected %s with %s" % (what, i, o["ptype"], o["prec"], ty, p))
            if tuple(o["raw"].shape) != tuple(q.shape):
                return Fail("shape", "%s: step %d gives shape %s" % (what, i, tuple(o["raw"].shape)))
            if q.numel() and ((o["raw"] - q).abs() > slack).any():
                return Fail("value/%s" % step["to"], "%s: step %d party %d has %s, expected %s (+-%d)" % (
                    what, i, r, o["raw"].flatten()[:4].tolist(), q.flatten()[:4].tolist(), slack))
            if q.numel() and not slack and p == 0 and not torch.equal(o["plain"].long(), q):
                return Fail("plain", "%s: step %d decrypts to %s" % (what, i, o["plain"].flatten()[:4].tolist()))
        if slack:
            q = vals[0][i]["raw"].clone()
    return None


def gen(r, ws, n):
    cases = []
    for _ in range(n):
        s = shape(r) if r.random() < 0.93 else r.choice([(0,), (2, 0)])
        m = 1
        for d in s:
            m *= d
        start = r.choice(["arithmetic", "arithmetic", "binary"])
        p = r.choice([0, 1, 8, 16, 16, 16, 20, 30])
        lim = 62 if start == "binary" else 60 - p
        vals = []
        for _ in range(m):
            k = r.random()
            v = r.choice([0, 1, -1, 2 ** lim - 1, -2 ** lim, 2 ** 15, -2 ** 15 - 1]) if k < 0.35 else r.choice([-1, 1]) * r.getrandbits(r.randrange(1, lim + 1))
            vals.append(max(-2 ** lim, min(2 ** lim - 1, v)))
        cur, cp = start, 0 if start == "binary" else p
        room = True
        steps = []
        mag = max([abs(v) for v in vals] + [1]).bit_length() + (0 if start == "binary" else p)
        nonneg = all(v >= 0 for v in vals)
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            to = "binary" if cur == "arithmetic" else "arithmetic"
            st = {"to": to if r.random() < 0.9 else cur}
            if r.random() < 0.3:
                st["form"] = "kw"
            if r.random() < 0.2:
                st["mutate"] = True
            if st["to"] == "arithmetic" and cur == "binary":
                cand = [q for q in (0, 8, 16, 20, None) if mag + ((16 if q is None else q) - cp) <= 62]
                low = [q for q in cand if (16 if q is None else q) < cp]
                if not cand:
                    break
                q = r.choice(cand)
                if q is not None and (16 if q is None else q) < cp and mag > 46:
                    q = cp if cp in cand else None
                    if q is None and (mag + 16 - cp > 62 or (16 < cp)):
                        break
                if q is not None or r.random() < 0.5:
                    if q is not None:
                        st["precision"] = q
                eff = 16 if q is None else q
                if eff < cp and mag > 46:
                    break
                if r.random() < 0.3 and not (eff < cp):
                    b = r.choice([1, 2, 8, 16, 33, 63, 64])
                    if not nonneg and b < 64 or True:
                        st["bits"] = b
                        if b < 64:
                            mag = min(b, 63)
                            nonneg = True
                            if mag + eff - cp > 62:
                                break
                mag = mag + eff - cp
                cp = eff
            steps.append(st)
            cur = st["to"]
        if steps:
            cases.append({"t": torch.tensor(vals, dtype=torch.long).view(s), "start": start, "precision": p if start != "binary" else None,
                          "src": r.randrange(ws), "steps": steps, "ws": ws})
    return cases


def sig(c):
    return (c["start"], c["precision"], tuple(c["t"].shape), tuple(c["t"].flatten()[:3].tolist()), c["src"], repr(c["steps"]))


def check(ctx):
    ctx.rule = "A case is a chain of conversions of one value between sharing types, precisions and bit widths; after each step the raw ring value at every party is compared with exact integers and the source tensor is re-read."
    ctx.assumptions = ["precision is lowered only for values below 2^46 (documented truncation failure probability)"]
    jobs = []
    for ws, cfg, k in [(3, None, 1.0), (2, None, 1.6), (1, None, .4), (4, None, .4), (2, {"mpc.provider": "TTP"}, .4), (3, {"mpc.provider": "TTP"}, .2)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=gen(ctx.rng(lab), ws, int(ctx.n(260, 7000) * k)), mod=ME, fn="run", judge=judge, sig=sig))
    ctx.drive(jobs, parallel=4)
