"""C15: decryptions to a destination are observed at every party - what it returns, every buffer that communication left behind
and every linear combination of those with the party's own share - and expressions that must not decrypt are run on two
different secrets under a wire monitor."""
import itertools
import re
import struct

import torch

from .. import ex
from ..core import Fail, agree
from ..ex import enc
from ..gen import grid

ME = "vf.checks.c15"
MIN_EVAL = 60
M64 = 1 << 64


# ------------------------------------------------------------------ party side
def run(case):
    import crypten
    import crypten.communicator as comm
    from crypten.mpc.primitives import ArithmeticSharedTensor, BinarySharedTensor

    from .. import instrument

    c = comm.get()
    rank, ws = c.get_rank(), c.get_world_size()
    xs = [ex.mk(s, rank, i) for i, s in enumerate(case["ops"])]
    if case.get("pre"):
        xs = [eval(case["pre"], dict(ex.env_common(), M=crypten, crypten=crypten, x=x)) for x in xs]
    prim = [getattr(x, "_tensor", x) for x in xs]
    own = [p.share.clone() for p in prim]
    every = [c.all_gather(s.contiguous()) for s in own]  # for the oracle only, before the monitored region
    kind = case["kind"]
    dst = case["dst"]
    A, B = ArithmeticSharedTensor, BinarySharedTensor
    rec = instrument.record(payload=True)
    try:
        if kind == "get_plain_text":
            r = xs[0].get_plain_text(dst=dst)
        elif kind == "reveal":
            r = xs[0].reveal(dst=dst)
        elif kind == "prim.get_plain_text":
            r = prim[0].get_plain_text(dst=dst)
        elif kind == "prim.reveal":
            r = prim[0].reveal(dst=dst)
        elif kind == "batch":
            r = type(prim[0]).reveal_batch(prim, dst=dst)
        elif kind == "batch1":
            r = type(prim[0]).reveal_batch(prim[0], dst=dst)
    finally:
        instrument.stop_record()
    seen = [t for e in rec for t in e.get("pre", []) + e.get("post", [])]
    after = [p.share.clone() for p in prim]
    return {"r": r, "own": own, "every": every, "seen": [t for t in seen if t.numel()], "n": len(rec), "after": after,
            "again": [p.get_plain_text() for p in prim], "scale": [int(p.encoder.scale) for p in prim]}


class Holder:
    pass


def look(case):
    """Evaluates an expression that must not decrypt; reports the wire events and what came out."""
    import crypten
    import crypten.communicator as comm
    import crypten.optim as optim

    from .. import instrument

    c = comm.get()
    rank = c.get_rank()
    res = []
    for t in case["secrets"]:
        x = crypten.cryptensor(t, src=case["src"], **({"ptype": crypten.mpc.binary} if case.get("bin") else {}))
        y = crypten.cryptensor(t + 1, src=0)
        g = crypten.cryptensor(t, src=case["src"], requires_grad=True)
        lin = crypten.nn.Linear(3, 2)
        lin.encrypt()
        env = dict(ex.env_common(), M=crypten, crypten=crypten, x=x, y=y, g=g, p=x._tensor, lin=lin, optim=optim, C=c, rank=rank, lst=[1, 2, 3], plain=torch.arange(12.0).view(3, 4))
        exec(SUPPORT, env)
        rec = instrument.record(payload=True)
        try:
            v = eval(case["expr"], env)
            e = None
        except Exception as err:  # noqa
            v, e = None, "%s: %s" % (type(err).__name__, err)
        instrument.stop_record()
        plain = []

        def walk(o, d=0):
            if crypten.is_encrypted_tensor(o) or hasattr(o, "share"):
                return
            if torch.is_tensor(o) or isinstance(o, (int, float, str, bytes)):
                plain.append(o)
            elif isinstance(o, (list, tuple, set)) and d < 4:
                for q in o:
                    walk(q, d + 1)
            elif isinstance(o, dict) and d < 4:
                for q in o.values():
                    walk(q, d + 1)

        walk(v)
        res.append({"err": e, "events": [(q["op"], q["shapes"]) for q in rec], "text": [s for s in plain if isinstance(s, (str, bytes))],
                    "plain": [s.clone() if torch.is_tensor(s) else s for s in plain if not isinstance(s, (str, bytes))],
                    "enc": crypten.is_encrypted_tensor(v), "type": type(v).__name__,
                    "shares": [t_.clone() for q in rec for t_ in q.get("post", [])], "share": x.share.clone(), "pshare": [x.share.clone(), y.share.clone(), g.share.clone()]})
    return res


SUPPORT = '''
def branch(v):
    if v:
        return 1
    return 2
def loop(v):
    n = 0
    while v:
        n += 1
        if n > 3: break
    return n
def boolop(v):
    return v and 5
def notop(v):
    return not v
def dump(v):
    import pickle
    return pickle.dumps(v)
def deep(v):
    import copy
    return str(copy.deepcopy(v))
def out(v):
    import io, contextlib
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        print(v)
        M.print(v)
        M.log(v)
    return b.getvalue()
def logged(v):
    import logging, io
    h = logging.StreamHandler(io.StringIO())
    logging.disable(logging.NOTSET)
    r = logging.getLogger("vf15"); r.addHandler(h); r.setLevel(logging.DEBUG)
    try:
        r.warning("value %s", v)
    finally:
        logging.disable(logging.CRITICAL); r.removeHandler(h)
    return h.stream.getvalue()
def exc(v):
    try:
        v.matmul("a")
    except Exception as e:
        return str(e) + repr(getattr(e, "args", ""))
def trace(v):
    import traceback
    try:
        v + {}
    except Exception:
        return traceback.format_exc()
def iterate(v):
    return [str(q) for q in v]
def sortit(v):
    return sorted([v, y])
def opt(v):
    return repr(optim.SGD(lin.parameters(), lr=0.1))
def back(v):
    s = (g * v).sum(); s.backward(); return repr(g.grad) + repr(s)
def rep(m):
    return repr(m)
'''
# (expression, may it communicate).  Whatever happens (an error, an encrypted result), nothing may depend on the secret.
LOOKS = [
    ("repr(x)", 0), ("str(x)", 0), ("'%s %r' % (x, x)", 0), ("f'{x}'", 0), ("format(x)", 0), ("out(x)", 0), ("logged(x)", 0), ("repr([x, y])", 0), ("repr({'a': x})", 0), ("repr(p)", 0), ("str(p)", 0), ("repr(g)", 0),
    ("bool(x)", 0), ("branch(x)", 0), ("loop(x)", 0), ("boolop(x)", 0), ("notop(x)", 0), ("branch(p)", 0), ("bool(g)", 0), ("x.__bool__()", 0), ("p.__bool__()", 0), ("p.__nonzero__()", 0), ("x.__nonzero__()", 0),
    ("branch(x > 0)", 1), ("branch(x == y)", 1), ("x == y", 1), ("x != y", 1), ("x < y", 1), ("x == 1.0", 1), ("x == None", 1), ("x in [y]", 1), ("[y].index(x)", 1), ("[x].count(y)", 1), ("max([x, y])", 1), ("min(x, y)", 1), ("sortit(x)", 1),
    ("hash(x)", 0), ("{x: 1}[x]", 0), ("len({x, y})", 0), ("hash(g)", 0), ("len(x)", 0), ("int(x)", 0), ("float(x)", 0), ("x.item()", 0), ("list(x)[0].size()", 0), ("iterate(x)", 0), ("x.tolist()", 0), ("x.numpy()", 0),
    ("lst[x]", 0), ("lst[x[0]]", 0), ("plain[x]", 0), ("x[y]", 1), ("x[x > 0]", 1), ("x[0]", 0), ("setitem(plain.clone(), 0, x)", 0), ("setitem(plain.clone(), x, 1)", 0), ("range(x)", 0), ("lst * x", 0), ("torch.tensor(x)", 0), ("torch.as_tensor(x)", 0),
    ("torch.tensor([x[0]])", 0), ("plain + x", 1), ("plain * x[0]", 1), ("torch.add(plain, x)", 0), ("torch.zeros(3).copy_(x)", 0), ("plain.view(-1)[:3] == x", 1), ("torch.equal(x, y)", 0), ("torch.is_tensor(x)", 0), ("isinstance(x, torch.Tensor)", 0),
    ("dump(x)", 0), ("deep(x)", 0), ("dump(p)", 0), ("exc(x)", 0), ("trace(x)", 0), ("exc(p)", 0), ("vars(x).keys()", 0), ("dir(x)[:3]", 0), ("rep(lin)", 0), ("repr(list(lin.parameters()))", 0), ("opt(x)", 0), ("repr(lin.state_dict())", 0), ("back(x)", 1),
    ("repr(x + y)", 0), ("repr(x * y)", 1), ("repr(x.relu())", 1), ("repr(x > 0)", 1), ("repr(x.max(0))", 1), ("repr(x.sum())", 0), ("str(x.argmax())", 1), ("repr(x.clone())", 0), ("repr(x.shallow_copy())", 0), ("repr(x.to(M.mpc.binary))", 1), ("repr(x.where(y > 0, y))", 1),
    ("repr(M.cat([x, y]))", 0), ("repr(x.detach())", 0), ("x.size(), x.dim(), x.numel(), x.device, x.ptype", 0), ("x.data.__class__.__name__", 0), ("x.nelement()", 0), ("abs(x)", 1), ("-x", 0), ("round(x)", 0), ("divmod(x, y)", 1), ("x.index_select(0, y)", 0),
]


# ------------------------------------------------------------------ oracle
def decoded(case, vals):
    """the secrets, from the shares of all parties"""
    outs = []
    for i, s in enumerate(vals[0]["every"]):
        tot = s[0].clone()
        for t in s[1:]:
            tot = (tot ^ t) if case.get("bin") else tot + t
        outs.append(tot)
    return outs


def judge(case, outs):
    vals, f = agree(outs)
    d = "%s dst=%s on %s" % (case["kind"], case["dst"], ex.desc(dict(case, expr=case.get("pre") or "x")))
    if f:
        return Fail("dst/diverged", f.msg + "; " + d)
    ws = case["ws"]
    ok_dst = isinstance(case["dst"], int) and 0 <= case["dst"] < ws
    if vals is None:
        return Fail("dst/raises", "%s; %s" % (outs[0][1:3], d)) if ok_dst else None
    secrets = decoded(case, vals)
    n = sum(s.numel() for s in secrets)
    for i, (s, v) in enumerate(zip(secrets, vals[0]["again"])):
        dec = s.double() / vals[0]["scale"][i]
        if tuple(v.shape) != tuple(s.shape) or not torch.allclose(v.double(), dec, rtol=1e-6, atol=1e-6):
            return Fail("dst/later", "the tensor decrypts to %s afterwards, expected %s; %s" % (v.flatten()[:4], dec.flatten()[:4], d))
    for rank, v in enumerate(vals):
        if not all(torch.equal(a, b) for a, b in zip(v["own"], v["after"])):
            return Fail("dst/share", "decryption changed the share of rank %d; %s" % (rank, d))
        if rank == case["dst"] or case["dst"] is None:
            got = v["r"] if isinstance(v["r"], list) else [v["r"]]
            if len(got) != (len(secrets) if case["kind"] == "batch" else 1):
                return Fail("dst/value", "rank %d got %d results; %s" % (rank, len(got), d))
            for i, (g, s) in enumerate(zip(got, secrets)):
                w = s.double() / vals[0]["scale"][i] if "plain" in case["kind"] else s
                if not torch.is_tensor(g) or tuple(g.shape) != tuple(w.shape) or (
                        not torch.allclose(g.double(), w, rtol=1e-6, atol=1e-6) if "plain" in case["kind"] else not torch.equal(g, w)):
                    return Fail("dst/value", "rank %d got %s, expected %s; %s" % (rank, str(g)[:200], w.flatten()[:4].tolist(), d))
            continue
        r = v["r"]
        flat = r if isinstance(r, list) else [r]
        if any(q is not None and not (torch.is_tensor(q) and q.numel() == 0) for q in flat):
            return Fail("dst/returned", "rank %d, not the destination, got %s; %s" % (rank, str(r)[:200], d))
        # everything the party can add up from what it saw and what it holds
        basis = [t for t in v["seen"] if t.dtype == torch.int64]
        for i, (s, own) in enumerate(zip(secrets, v["own"])):
            if s.numel() == 0:
                continue
            cols = {}
            for t in basis:
                cols.setdefault(t.numel(), []).append(t.flatten())
            same = [t for t in cols.get(s.numel(), [])]
            uniq = []
            for t in same:
                if not any(torch.equal(t, u) for u in uniq):
                    uniq.append(t)
            flat_s, flat_o = s.flatten(), own.flatten()
            for k in range(0, min(4, len(uniq)) + 1):
                for sub in itertools.combinations(uniq[:10], k):
                    for signs in itertools.product([1, -1], repeat=k):
                        for o in (0, 1, -1):
                            if k == 0 and o == 0:
                                continue
                            tot = torch.zeros_like(flat_s)
                            if case.get("bin"):
                                if o == -1 or -1 in signs:
                                    continue
                                for t in sub:
                                    tot = tot ^ t
                                if o:
                                    tot = tot ^ flat_o
                            else:
                                for g, t in zip(signs, sub):
                                    tot = tot + g * t
                                tot = tot + o * flat_o
                            hit = (tot == flat_s) & (flat_s != 0)
                            if int(hit.sum()):
                                return Fail("dst/leak", "rank %d, not the destination, can compute %d of %d elements of the value from the buffers of this decryption; %s" % (
                                    rank, int(hit.sum()), flat_s.numel(), d))
            # the value itself anywhere in what it saw, whatever the shape
            vals_s = set(int(q) for q in flat_s.tolist() if abs(int(q)) > 1000)
            for t in basis:
                if vals_s & set(t.flatten().tolist()):
                    return Fail("dst/leak", "rank %d, not the destination, saw elements of the value in a buffer; %s" % (rank, d))
    return None


NUM = re.compile(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?")


def spelled(text, t):
    """an element of the secret that the text or the bytes contain, decoded or encoded"""
    vs = t.flatten().double().tolist()
    if isinstance(text, bytes):
        for v in vs:
            for raw in (struct.pack("<q", int(v * 65536)), struct.pack("<f", v), struct.pack("<d", v)):
                if raw in text:
                    return v
        return None
    for tok in set(NUM.findall(text)):
        u = float(tok)
        for v in vs:
            if abs(u - v) < 0.006 or u == int(v * 65536):
                return v
    return None


def judge_look(case, outs):
    vals, f = agree(outs)
    d = "%s (secrets from %s)" % (case["expr"], case["src"])
    if f or vals is None:
        return Fail("look/diverged", "%s on %s" % (f.msg if f else outs[0][:3], d))
    for rank, v in enumerate(vals):
        a, b = v
        if (a["err"] is None) != (b["err"] is None) or (a["err"] or "").split(":")[0] != (b["err"] or "").split(":")[0]:
            return Fail("look/branch", "outcome depends on the secret at rank %d: %s / %s; %s" % (rank, a["err"], b["err"], d))
        if a["events"] != b["events"]:
            return Fail("look/traffic", "traffic depends on the secret at rank %d; %s" % (rank, d))
        if a["events"] and not case["comm"]:
            return Fail("look/communicates", "rank %d communicates (%s) in %s" % (rank, a["events"][:3], d))
        for k in (a, b):
            if k["err"] is None and case["expr"] in MUST_RAISE:
                return Fail("look/allowed", "no error at rank %d for %s" % (rank, d))
        for q, t in ((a, case["secrets"][0]), (b, case["secrets"][1])):
            # decrypted values that came out: the value itself, in text or as a number or tensor
            for s in q["text"] + ([q["err"]] if q["err"] else []):
                hit = spelled(s, t)
                hit = spelled(s, t + 1) if hit is None else hit
                if hit is not None:
                    return Fail("look/text", "the secret (%s) appears in the text at rank %d: %s; %s" % (hit, rank, s[:300], d))
            for s in q["plain"]:
                vs = s.flatten().double().tolist() if torch.is_tensor(s) else [float(s)]
                hit = [u for u in vs if any(abs(u - w) < 1e-3 or u == int(w * 65536) for w in t.flatten().double().tolist())]
                if hit:
                    return Fail("look/value", "the secret (%s) comes out at rank %d; %s" % (hit[0], rank, d))
            # buffers: with its own share, no party but the source may compute the secret
            want = set()
            for tt in (t, t + 1):
                want |= {int(u) for u in (tt.double() * 65536).flatten().tolist()} | {int(u) for u in tt.flatten().tolist()}
            for sh in q["shares"]:
                if sh.dtype == torch.int64 and want & set(sh.flatten().tolist()):
                    return Fail("look/wire", "the secret itself was on the wire at rank %d; %s" % (rank, d))
    return None


MUST_RAISE = {"bool(x)", "branch(x)", "loop(x)", "boolop(x)", "notop(x)", "branch(p)", "bool(g)", "branch(x > 0)", "branch(x == y)", "int(x)", "float(x)", "lst[x]", "plain[x]", "x in [y]", "max([x, y])"}


# ------------------------------------------------------------------ generator
PRE = [None, None, None, "x * 2", "x + x", "x.t() if x.dim() == 2 else x", "x[..., :1]", "x * x", "x.relu()", "x.sum()"]
KINDS = ["get_plain_text", "get_plain_text", "reveal", "prim.get_plain_text", "prim.reveal", "batch", "batch1"]


def case(r, ws):
    s = r.choice([(1,), (3,), (2, 3), (7,), (4, 4), (), (0,), (40,), (3, 1, 2), (1500,)])
    b = r.random() < 0.35
    kind = r.choice(KINDS)
    n = r.choice([1, 2, 3]) if kind == "batch" else 1
    ops = []
    for i in range(n):
        k = 1
        for q in s:
            k *= q
        if b:
            t = torch.tensor([r.randint(-2 ** 62, 2 ** 62) for _ in range(k)], dtype=torch.int64).view(s)
            ops.append(enc(t, src=r.randrange(ws), ptype="binary"))
        else:
            t = torch.tensor([r.choice([-1, 1]) * (50 + r.randrange(2 ** 22) / 2 ** 12) for _ in range(k)]).view(s)
            ops.append(dict(enc(t, src=r.randrange(ws), precision=r.choice([None, None, 8, 20]), grad=r.random() < 0.3), lay=r.choice([0, 0, 1, 2])))
        s = r.choice([s, (2, 2), (5,)])
    pre = r.choice(PRE)
    if b:
        pre = r.choice([None, None, "x[..., :1]"])
    if pre in ("x[..., :1]",) and any(o["t"].dim() == 0 for o in ops):
        pre = None
    if pre and pre != "x[..., :1]" and any(o["t"].numel() == 0 for o in ops):
        pre = None
    dst = r.randrange(ws) if r.random() < 0.94 else None
    return {"kind": kind, "dst": dst, "ops": ops, "pre": pre, "bin": b, "ws": ws}


def check(ctx):
    ctx.rule = ("A case is one decryption to a destination (type, route, shape, layout, encoding, history of the value) observed at every party, or one expression that must not decrypt, evaluated for two secrets. "
                "Non-destinations: results, every communication buffer before and after each primitive, and all signed sums of up to four of them with the own share are compared with the value.")
    ctx.assumptions = ["a party's memory inside the transport's own threads is not observed, only the buffers handed to it", "two or more parties (one party's share is the value)"]
    jobs = []
    for ws, cfg, k in [(2, None, 1.0), (3, None, 1.0), (4, None, .5), (5, None, .2), (2, {"mpc.provider": "TTP"}, .4), (3, {"mpc.protocol": "replicated"}, .4)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        cases = [case(r, ws) for _ in range(int(ctx.n(110, 3000) * k))]
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cases, mod=ME, fn="run", judge=judge, sig=lambda c: (c["kind"], c["dst"], c["pre"], ex.sig(dict(c, expr="x")))))
    for ws in (2, 3) if ctx.quick else (2, 3, 4):
        r = ctx.rng("look", ws)
        cases = []
        for e, cm in LOOKS * ctx.n(1, 6):
            mk = lambda: torch.tensor([r.choice([-1, 1]) * (100 + r.randrange(2 ** 24) / 2 ** 12) for _ in range(3)])
            cases.append({"expr": e, "comm": cm, "secrets": [mk(), mk()], "src": r.randrange(ws)})
        jobs.append(dict(label="look/%dPC" % ws, ws=ws, cfg=None, cases=cases, mod=ME, fn="look", judge=judge_look, sig=lambda c: (c["expr"], c["src"])))
    ctx.drive(jobs, reruns=3, parallel=4)
