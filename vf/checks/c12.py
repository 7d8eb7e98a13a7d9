"""C12: what a party holds or sees before decryption.

Every case encrypts operands and runs one operation twice on the same encrypted operands while the wire is recorded with
payloads at every party.  The joined record decides: no mask is used twice (no two messages, opened values or shares of the
session lie closer together than tiny private inputs could explain), the second run of an operation gives unrelated
messages and shares, all of it is uniform bit by bit over repetitions, no proper subset of parties holds anything, no party
can predict another party's share from the generators it owns, and two sessions that share every application-level seed
have nothing in common."""
import torch

from .. import ex
from ..core import Fail, agree
from ..ex import enc, pub

ME = "vf.checks.c12"
MIN_EVAL = 60
NEAR = 1 << 19


# ------------------------------------------------------------------ party side
def _shares(v):
    import crypten

    out = []
    for t in v if isinstance(v, (list, tuple)) else [v]:
        if crypten.is_encrypted_tensor(t) or hasattr(t, "share"):
            u = t
            while not torch.is_tensor(u.share):
                u = u.share
            out.append(u.share.clone())
    return out


def _events(rec):
    out = []
    for e in rec:
        op = e["op"]
        pre = e.get("pre", [])
        if op in ("all_reduce", "reduce", "send", "isend", "broadcast", "gather", "all_gather", "scatter"):
            if op == "all_gather":  # (output list, tensor)
                ts = pre[-1:]
            elif op == "scatter":
                ts = pre
            else:
                ts = pre[:1]
            out.append((op, e["meta"], [t for t in ts]))
    return out


def predictions(shape):
    """What this party can compute from the generators it holds: all differences and xors of next draws."""
    import crypten
    from crypten.common.rng import generate_random_ring_element

    draws = []
    for name in sorted(crypten.generators):
        g = crypten.generators[name][torch.device("cpu")]
        c = torch.Generator()
        c.set_state(g.get_state())
        draws.append(generate_random_ring_element(shape, generator=c))
    out = []
    for i, d in enumerate(draws):
        out += [d, -d]
        for e in draws[:i]:
            out += [d - e, e - d, d ^ e, d + e]
    return out


def run(case):
    import crypten
    import crypten.communicator as comm

    from .. import instrument

    rank = comm.get().get_rank()
    res = {"ops": [], "pred": [], "ev": [], "out": []}
    if case.get("seed") is not None:
        import random

        torch.manual_seed(case["seed"])
        random.seed(case["seed"])
    ops = []
    for i, s in enumerate(case["ops"]):
        if s["k"] == "enc" and case.get("predict"):
            res["pred"].append(predictions(s["t"].shape))
        if s.get("ptype") == "binary":
            from crypten.mpc.primitives import BinarySharedTensor

            o = BinarySharedTensor(s["t"] if rank == s["src"] else ex.garbage(s["t"], rank + i), src=s["src"])
        else:
            o = ex.mk(s, rank, i)
        ops.append(o)
        res["ops"].append(_shares(o))
    with ex.override(case.get("cfg")):
        for k in range(2):
            env = dict(ex.env_common(), M=crypten, crypten=crypten, **dict(zip("abc", ops)))
            instrument.record(payload=True)
            try:
                out = eval(case["expr"], env)
            finally:
                rec = instrument.stop_record()
            if case.get("seed") is not None:
                torch.manual_seed(case["seed"])
            res["ev"].append(_events(rec))
            res["out"].append(_shares(out))
    return res


# ------------------------------------------------------------------ oracle
def total(ts, op):
    r = ts[0].clone()
    for t in ts[1:]:
        r = (r ^ t) if "XOR" in op else r + t
    return r


def bits_only(t):
    return t.numel() > 0 and bool(((t == 0) | (t == 1)).all())


class Uniform:
    def __init__(self):
        self.acc = {}

    def add(self, key, t):
        if t.numel():
            self.acc.setdefault(key, []).append(t.reshape(-1))

    def verdicts(self):
        for key, ts in self.acc.items():
            v = torch.cat(ts)
            n = v.numel()
            if n < 200:
                continue
            ones = torch.stack([(v >> b) & 1 for b in range(1 if key[0] == "bit" else 64)]).sum(1)
            dev = (ones.double() - n / 2).abs() / (n ** 0.5 / 2)
            b = int(dev.argmax())
            if float(dev[b]) > 7.0:
                yield key, "bit %d is set in %d of %d observed values" % (b, int(ones[b]), n)


def messages(outs, k):
    """Joined view of one run: list of (name, tensor, bit?) visible outside the sender, and opened totals."""
    ws = len(outs)
    vis, tot = [], []
    coll = [[e for e in o["ev"][k] if e[0] in ("all_reduce", "reduce", "gather", "all_gather")] for o in outs]
    if len({len(c) for c in coll}) != 1:
        raise ValueError("parties took part in different numbers of collectives")
    for i in range(len(coll[0])):
        ts = [c[i][2][0] for c in coll]
        if ts[0].dtype != torch.int64:
            continue
        op = str(coll[0][i][1].get("op", ""))
        if len({t.shape for t in ts}) != 1:
            raise ValueError("parties contribute different shapes to collective %d" % i)
        t = total(ts, op)
        isbit = bits_only(t) and ws > 1
        if coll[0][i][0] in ("all_reduce", "reduce"):
            tot.append(("%d:%s-opened" % (i, coll[0][i][0]), t, isbit))
        for r in range(ws):
            vis.append(("%d:%s-from%d" % (i, coll[0][i][0], r), ts[r], isbit, r))
    for r, o in enumerate(outs):
        n = 0
        for op, meta, ts in o["ev"][k]:
            if op == "scatter" and len(ts) > 1:
                for j, t in enumerate(ts[1:]):
                    if j != r and t.dtype == torch.int64:
                        vis.append(("%d:scatter-from%d-to%d" % (n, r, j), t, False, r))
                n += 1
            elif op in ("send", "isend") and ts[0].dtype == torch.int64:
                vis.append(("%d:%s-from%d" % (n, op, r), ts[0], False, r))
                n += 1
            elif op in ("send", "isend") and ts[0].dtype == torch.int8:
                bad = object_content(ts[0])
                if bad:
                    raise ValueError("object sent by party %d carries %s" % (r, bad))
    return vis, tot


def object_content(buf):
    """The library's own object messages (third-party requests) hold only shapes and settings."""
    import pickle

    try:
        obj = pickle.loads(buf.numpy().tobytes())
    except Exception as e:
        return "undecodable bytes (%r)" % e

    def walk(o):
        if torch.is_tensor(o):
            return "a tensor %s" % (o.flatten()[:4].tolist(),)
        if isinstance(o, dict):
            o = list(o.keys()) + list(o.values())
        if isinstance(o, (list, tuple)):
            for u in o:
                w = walk(u)
                if w:
                    return w
        return None

    return walk(obj)


def near(pool):
    """Two values of the pool closer than NEAR (on the ring)."""
    vals = torch.cat([t.reshape(-1) for _, t in pool]) if pool else torch.zeros(0, dtype=torch.int64)
    if vals.numel() < 2:
        return None
    names = [n for n, t in pool for _ in range(t.numel())]
    s, idx = vals.sort()
    d = s[1:] - s[:-1]
    d = torch.cat([d, (s[:1] - s[-1:])])  # wraps around the ring (int64 arithmetic)
    bad = (d.abs() < NEAR).nonzero().flatten()
    if len(bad):
        i = int(bad[0])
        j = (i + 1) % len(s)
        return "%s value %d and %s value %d" % (names[int(idx[i])], int(s[i]), names[int(idx[j])], int(s[j]))
    return None


def make_judge(ws, uni, sessions, rep, lab):
    def judge(case, outs):
        vals, f = agree(outs)
        where = "%s (%s)" % (ex.desc(case)[:300], lab)
        if f:
            return Fail("diverged", f.msg + "; " + where)
        if vals is None:
            return Fail("raises", "raised %s: %s; %s" % (outs[0][1], outs[0][2], where))
        name = case["expr"] + (str(case["cfg"]) if case.get("cfg") else "")
        try:
            runs = [messages(vals, k) for k in range(2)]
        except ValueError as e:
            return Fail("message", "%s; %s" % (e, where))
        pool, sent = [], {}
        small = case.get("small")
        # shares of the inputs
        for i, s in enumerate(case["ops"]):
            if s["k"] != "enc":
                continue
            sh = [v["ops"][i][0] for v in vals]
            for r in range(ws):
                if ws > 2 or (ws == 2 and (r == 0 or s.get("ptype") != "binary")):
                    pool.append(("input-%s-share%d" % ("abc"[i], r), sh[r]))
                    uni.add(("input", s.get("ptype"), r, s["src"] == r), sh[r])
            if ws > 2:
                for m in range(1, 2 ** ws - 1):
                    sub = [sh[r] for r in range(ws) if m >> r & 1]
                    if len(sub) > 1:
                        uni.add(("input-subset", s.get("ptype"), m, s["src"]), total(sub, "XOR" if s.get("ptype") == "binary" else ""))
                if case.get("predict"):
                    for j in range(ws):
                        for cand in vals[j]["pred"][i]:
                            for r in range(ws):
                                if r not in (j, s["src"]) and sh[r].numel() and bool((cand == sh[r]).any()):
                                    return Fail("predictable", "party %d can compute the input share of party %d; %s" % (j, r, where))
            if ws == 2 and s.get("ptype") != "binary":
                uni.add(("input-difference",), (sh[0] - sh[1]) >> 1)
        for k, (vis, tot) in enumerate(runs):
            for nm, t, isbit, r in vis:
                if isbit:
                    uni.add(("bit", name, nm), t & 1)
                    if not bits_only(t):
                        uni.add(("msg", name, nm), t)
                    continue
                sent_share = "send" in nm.split(":")[1]
                if not (sent_share and rep):
                    uni.add(("msg", name, nm), t)
                if sent_share and rep:
                    # replicated sharing hands the same share to the same neighbour again
                    own = sent.setdefault(r, {v for n_, q in pool if n_.endswith("-share%d" % r) for v in q.reshape(-1).tolist()})
                    new = list(dict.fromkeys(v for v in t.reshape(-1).tolist() if v not in own))
                    own.update(new)
                    t = torch.tensor(new, dtype=torch.int64)
                pool.append(("run%d/%s" % (k, nm), t))
            for nm, t, isbit in tot:
                if isbit:
                    uni.add(("bit", name, nm), t)
                else:
                    uni.add(("opened", name, nm), t)
                    pool.append(("run%d/%s" % (k, nm), t))
        if ws == 1:
            return None
        if small:
            e = near(pool)
            if e:
                return Fail("mask-reuse", "values that should be masked independently nearly coincide: %s; %s" % (e, where))
            lim = 1 << 24
            for nm, t in pool:
                if t.numel() and bool((t.abs() < lim).any()):
                    return Fail("unmasked", "%s holds %d, which is not masked; %s" % (nm, int(t.reshape(-1)[t.reshape(-1).abs().argmin()]), where))
        # sessions with equal application seeds
        fresh = {}
        for nm, t in pool:
            for v in t.reshape(-1).tolist():
                if abs(v) > 1 << 20:
                    fresh[v] = nm
        for v, nm in fresh.items():
            if v in sessions["seen"] and sessions["seen"][v][0] != case["session"]:
                return Fail("seedable", "%s value %d also occurred in another session (%s) that shares only the application's seeds; %s" % (
                    nm, v, sessions["seen"][v], where))
        for v, nm in fresh.items():
            sessions["seen"][v] = (case["session"], nm)
        # fresh shares of the result
        if case.get("interactive"):
            for r in range(ws):
                for x, y in zip(vals[r]["out"][0], vals[r]["out"][1]):
                    if x.numel() and bool(((x - y).abs() < (1 << 12)).any()):
                        return Fail("rerandomise", "party %d gets the same result share from two runs on the same operands; %s" % (r, where))
        return None

    return judge


# ------------------------------------------------------------------ generator
PROGS = {
    "arith": ["a*b", "a.square()", "a.matmul(b.t())", "a/3", "a*b+a*a", "a>b", "a==b", "a.relu()", "a.abs()", "a.to(M.mpc.binary)",
              "a.max(0)[0]", "a.argmax(1)", "a.sign()", "a.clone().mul_(b)", "M.where(a>b, a, b)", "a.var()", "a.mean(0)", "a.bernoulli()",
              "a.dropout(p=0.5)"],
    "long": ["a.exp()", "a.sigmoid()", "a.softmax(1)", "(a+1).reciprocal()", "(a+1).sqrt()", "(a+1).log()", "a.max_pool2d(2)", "a.cos()", "a.tanh()"],
    "conv": ["a.conv2d(b)", "a.conv2d(b, padding=1)", "a.conv_transpose2d(b)"],
    "int": ["a*b", "a.square()", "a.matmul(b.t())"],  # no truncation follows
    "bin": ["a&b", "a+b", "a|b", "M.mpc.primitives.converters._B2A(a, precision=0)", "M.mpc.primitives.converters._B2A(a&1, precision=0, bits=1)"],
}


def tiny(r, s, mode):
    n = 1
    for d in s:
        n *= d
    if mode == "zero":
        v = [0] * n
    elif mode == "one":
        v = [65536 if r.random() < .5 else -65536 for _ in range(n)]
    elif mode == "big":
        v = [r.choice([-1, 1]) * r.randrange(20 << 16, 30 << 16) for _ in range(n)]
    else:
        v = [r.randrange(-60, 61) for _ in range(n)]
    return (torch.tensor(v, dtype=torch.float64) / 65536).float().view(s)


def gen(r, ws, rep, session, reps, fams):
    for rpt in range(reps):
        for fam in fams:
            for e in PROGS[fam]:
                mode = ["tiny", "zero", "one", "big"][(rpt + session) % 4] if fam != "long" else ["tiny", "one"][rpt % 2]
                if e.startswith("(a+1)") or "bernoulli" in e:
                    mode = "zero" if rpt % 2 else "tiny"
                pt = "binary" if fam == "bin" else None
                sh = (4, 6) if fam in ("arith", "int") else (3, 4) if fam == "bin" else (1, 1, 4, 4) if fam == "long" else (1, 1, 4, 4)
                shb = (1, 1, 2, 2) if fam == "conv" else sh
                if fam == "long" and "pool" not in e:
                    sh = shb = (2, 3)
                sc = (lambda t: (t * 65536).long()) if fam in ("bin", "int") else (lambda t: t)
                pr = 0 if fam == "int" else None
                ops = [enc(sc(tiny(r, sh, mode)), src=(rpt + session) % ws, ptype=pt, precision=pr),
                       enc(sc(tiny(r, shb, mode)), src=(rpt + session + 1) % ws, ptype=pt, precision=pr)]
                # truncation leaves (part of) a share as it is
                local = e == "a.mean(0)" or (e == "a/3" and ws <= 2)
                yield {"expr": e, "ops": ops, "session": session, "small": mode != "big" and e not in ("a.bernoulli()", "a.dropout(p=0.5)"),
                       "interactive": not local and ws > 1, "predict": fam == "arith" and rpt == 0, "seed": 11 if rpt % 2 else None}


def check(ctx):
    ctx.rule = ("A case is one operation on freshly encrypted operands, run twice, with every message and share of every party recorded and joined; it is judged for reuse, missing masks "
                "and equality with a session that has the same application seeds; bit statistics are taken over all repetitions of each message position.")
    ctx.assumptions = ["the trusted first party (rank 0) and the third party are trusted by design; no collusion is considered",
                       "bit statistics are judged at 7 standard deviations"]
    jobs, unis = [], []
    for ws, cfg, reps, fams in [(2, None, 12, ["arith", "bin", "int"]), (3, None, 10, ["arith", "bin", "int"]), (2, {"mpc.provider": "TTP"}, 10, ["arith", "bin", "int"]),
                                (3, {"mpc.protocol": "replicated"}, 8, ["arith", "conv", "bin", "int"]), (4, None, 5, ["arith"]),
                                (2, None, 4, ["long", "conv"]), (3, {"mpc.provider": "TTP"}, 3, ["arith", "conv"]), (3, None, 2, ["long", "conv"])]:
        lab = "%dPC%s/%s" % (ws, "".join("-" + v for v in (cfg or {}).values()), "+".join(fams))
        uni, sess = Uniform(), {"seen": {}}
        unis.append((lab, uni, sess))
        rep = bool(cfg) and "mpc.protocol" in cfg
        judge = make_judge(ws, uni, sess, rep, lab)
        for session in range(2):
            r = ctx.rng(lab, session)
            cases = list(gen(r, ws, rep, session, max(1, int(reps * ctx.n(.5, 6))), fams))
            jobs.append(dict(label="%s/session%d" % (lab, session), ws=ws, cfg=cfg, cases=cases, mod=ME, fn="run", judge=judge,
                             opts={"torch_seed": 99}, sig=ex.sig))
    ctx.drive(jobs, reruns=2, parallel=4)
    for lab, uni, sess in unis:
        ctx.count("message_positions", len(uni.acc))
        ctx.count("values_compared", len(sess["seen"]))
        for key, msg in uni.verdicts():
            ctx.violation(Fail("uniform/%s" % key[0], "%s at %s (%s)" % (msg, key, lab)), lab, {"label": lab, "key": repr(key)})
