"""C23: runs batches of base oblivious transfers between real parties and records everything each side received.  The messages are
known to the harness, so the one-time pads can be computed from the record; they are examined for reuse and distribution, the
receiver is run again on its own record with other choices, and the sender's record is tested for dependence on the choices."""
import math
import random

from ..core import Fail, agree
from .c22 import Pool, Z, chi_sf_bound

ME = "vf.checks.c23"
MIN_EVAL = 40
P = 631276824160446938136046282957027762913
SMALL = {}


def small():
    if not SMALL:
        v = 1
        for k in range(1 << 16):
            SMALL.setdefault(v, k)
            v = v * 3 % P
    return SMALL


class Recorder:
    """Forwards to the communicator and keeps what was received and sent."""

    def __init__(self, real, partner):
        self.real, self.partner, self.got, self.sent = real, partner, [], []

    def send_obj(self, obj, dst, *a, **k):
        self.sent.append((dst, obj))
        return self.real.send_obj(obj, dst, *a, **k)

    def recv_obj(self, src, *a, **k):
        v = self.real.recv_obj(src, *a, **k)
        self.got.append((src, v))
        return v

    def __getattr__(self, name):
        return getattr(self.real, name)


class Alone:
    """A partner that answers with random group elements."""

    def send_obj(self, obj, dst, *a, **k):
        pass

    def recv_obj(self, src, *a, **k):
        return pow(3, random.randrange(P - 1), P)


class Replay:
    def __init__(self, got):
        self.got, self.sent = list(got), []

    def send_obj(self, obj, dst, *a, **k):
        self.sent.append(obj)

    def recv_obj(self, src, *a, **k):
        return self.got.pop(0)[1]


def run(case):
    import importlib

    import crypten
    import crypten.communicator as comm

    mod = importlib.import_module("crypten.mpc.primitives.ot.baseOT")
    me = comm.get().get_rank()
    real_get, os_random = comm.get, random._urandom
    out = []
    ots = {}
    if case.get("pyseed") is not None:
        random.seed("%s/%s" % (case["pyseed"], me))
    for tr in case["batches"]:
        if tr.get("secure"):  # other traffic in between
            x = crypten.cryptensor([1.0, 2.0], src=0)
            out.append(("secure", (x * x).get_plain_text().tolist()))
            continue
        if "refuse" in tr:
            comm.get = lambda: Alone()
            try:
                mod.BaseOT((me + 1) % 2).send(*tr["refuse"])
                out.append("accepted")
            except Exception as e:
                out.append("refused")
            finally:
                comm.get = real_get
            continue
        if me not in (tr["s"], tr["r"]):
            out.append(None)
            continue
        partner = tr["r"] if me == tr["s"] else tr["s"]
        key = (partner, tr["object"])
        if key not in ots:
            ots[key] = mod.BaseOT(partner)
        ot = ots[key]
        rec = Recorder(real_get(), partner)
        state, drawn = random.getstate(), []
        m0, m1, ch = list(tr["m0"]), list(tr["m1"]), cast(tr["as"], tr["choices"])
        before = (list(m0), list(m1), list(tr["choices"]))
        comm.get = lambda: rec
        random._urandom = lambda n: drawn.append(os_random(n)) or drawn[-1]
        try:
            res = ot.send(m0, m1) if me == tr["s"] else ot.receive(ch)
        finally:
            comm.get = real_get
            random._urandom = os_random
        info = {"got": [v for _, v in rec.got], "sent": [v for _, v in rec.sent], "peers": sorted({s for s, _ in rec.got} | {d for d, _ in rec.sent}),
                "modified": (m0, m1, [int(c) for c in ch]) != before, "result": res}
        if me == tr["r"]:
            # what the receiver could compute from its own record had it chosen differently afterwards
            after = random.getstate()
            alt = []
            for flip in ([1 - int(c) for c in tr["choices"]], [0] * len(ch), [1] * len(ch)):
                random.setstate(state)
                comm.get = lambda: rp
                rp, again = Replay(rec.got), list(drawn)
                random._urandom = lambda n: again.pop(0) if again and len(again[0]) == n else os_random(n)
                try:
                    alt.append(ot.receive(cast(tr["as"], flip)))
                except Exception:
                    alt.append(None)
                finally:
                    comm.get = real_get
                    random._urandom = os_random
            random.setstate(after)
            info["alt"] = alt
        out.append((me == tr["s"], info))
    return out


def cast(how, ch):
    import numpy
    import torch

    return {"bool": lambda: [bool(c) for c in ch], "int": lambda: [int(c) for c in ch], "torch": lambda: torch.tensor(ch, dtype=torch.bool),
            "numpy": lambda: numpy.array(ch, dtype=bool), "tuple": lambda: tuple(bool(c) for c in ch)}[how]()


def xor(a, b):
    return [ord(x) ^ ord(y) for x, y in zip(a, b)]


def text(v):
    return v if isinstance(v, str) else v.decode("latin-1") if isinstance(v, (bytes, bytearray)) else None


def ints(v):
    if isinstance(v, bool):
        return []
    if isinstance(v, int):
        return [v]
    if isinstance(v, (list, tuple)):
        return [q for w in v for q in ints(w)]
    return []


def texts(v):
    if text(v) is not None:
        return [text(v)]
    if isinstance(v, (list, tuple)):
        return [q for w in v for q in texts(w)]
    return []


def make_judge(pool):
    def judge(case, outs):
        bad = [o for o in outs if o[0] != "ok"]
        if bad:
            return Fail("raised", "transfers of %s: %s" % ([len(t["choices"]) if "choices" in t else "other" for t in case["batches"]], [o[:3] for o in outs]))
        masks_seen, pads_seen = {}, {}
        for k, tr in enumerate(case["batches"]):
            per = [o[1][k] for o in outs]
            if tr.get("secure"):
                if any(p is None or p[0] != "secure" or max(abs(a - b) for a, b in zip(p[1], [1, 4])) > 1e-3 for p in per):
                    return Fail("interference", "a secure product between transfers is wrong: %s" % per)
                continue
            if "refuse" in tr:
                if any(p != "refused" for p in per):
                    return Fail("refuse", "messages of lengths %s are accepted although they cannot be delivered" % [[len(m) for m in ms] for ms in tr["refuse"]])
                continue
            s, r = per[tr["s"]][1], per[tr["r"]][1]
            n = len(tr["choices"])
            where = "batch %d (%d -> %d, %d transfers)" % (k, tr["s"], tr["r"], n)
            want = [(a, b)[c] for a, b, c in zip(tr["m0"], tr["m1"], tr["choices"])]
            other = [(b, a)[c] for a, b, c in zip(tr["m0"], tr["m1"], tr["choices"])]
            if r["result"] is None or list(r["result"]) != want:
                i = next((i for i in range(min(n, len(r["result"] or []))) if r["result"][i] != want[i]), None)
                return Fail("message", "%s: transfer %s delivered %r instead of %r" % (where, i, r["result"] if i is None else r["result"][i], want if i is None else want[i]))
            if s["modified"] or r["modified"]:
                return Fail("modified", "%s: the arguments were modified" % where)
            if s["peers"] not in ([], [tr["r"]]) or r["peers"] not in ([], [tr["s"]]):
                return Fail("peer", "%s: other parties were contacted: %s %s" % (where, s["peers"], r["peers"]))
            # the receiver's record
            got = [t for v in r["got"] for t in texts(v)]
            for i, o in enumerate(other):
                if len(o) >= 6 and o != want[i]:
                    if any(o in t or t == o[::-1] for t in got):
                        return Fail("plain", "%s: the message that was not chosen in transfer %d was sent in the clear" % (where, i))
                    for alt in r["alt"]:
                        if alt is not None and len(alt) == n and alt[i] == o:
                            return Fail("recoverable", "%s: the receiver can compute the message it did not choose in transfer %d from what it received" % (where, i))
            recv_ints = [q for v in r["got"] for q in ints(v)]
            sent_ints = [q for v in s["got"] for q in ints(v)]
            for q in recv_ints + sent_ints:
                if q in masks_seen and q not in (0, 1):
                    return Fail("reuse", "%s: a value that hides a choice or a message was used twice" % where)
                masks_seen[q] = k
                if q in small():
                    return Fail("guessable", "%s: the value %d that one side received is a power of the generator with the small exponent %d" % (where, q, small()[q]))
            if len(sent_ints) == n == len(recv_ints):
                for i in range(n):
                    quot = sent_ints[i] * pow(recv_ints[i], P - 2, P) % P
                    if quot in small() or sent_ints[i] * recv_ints[i] % P in small():
                        return Fail("guessable", "%s: the sender can tell the choice of transfer %d: the receiver's exponent is small" % (where, i))
                    pool.add("masks", (sent_ints[i], tr["choices"][i], recv_ints[i], i))
                pool.ctx.count("masks", n)
            elif n:
                pool.ctx.count("unrecognised_masks", n)
            pool.add("traffic", (n, sum(tr["choices"]), len(s["got"]), len(repr([type(v).__name__ for v in s["got"]]))))
            if len(got) == 2 * n:
                for i in range(n):
                    for slot, m in ((0, tr["m0"][i]), (1, tr["m1"][i])):
                        e = got[2 * i + slot]
                        if len(e) != len(m):
                            continue
                        pad = xor(e, m)
                        if all(ord(c) < 256 for c in m):
                            if len(pad) >= 8:
                                head = tuple(pad[:8])
                                if head in pads_seen:
                                    return Fail("pad", "%s: message %d of transfer %d is hidden by the same pad as message %s" % (where, slot, i, pads_seen[head]))
                                pads_seen[head] = (k, i, slot)
                            pool.add("pads", pad)
                            pool.add("pads of the " + ("chosen" if slot == tr["choices"][i] else "other"), pad)
                        pool.ctx.count("pads")
            elif n:
                pool.ctx.count("unrecognised_pads", 2 * n)
        return None

    return judge


def tests(ctx, pool):
    n_tests = 0

    def verdict(name, ok, msg):
        nonlocal n_tests
        n_tests += 1
        if not ok:
            ctx.violation(Fail("stat:" + name, msg), "pooled records", {"pooled": name})

    for key, vs in pool.d.items():
        if key == "traffic":
            by = {}
            for n, ones, objs, kinds in vs:
                by.setdefault(n, set()).add((objs, kinds))
            for n, s in by.items():
                verdict("traffic", len(s) == 1, "what the sender receives for %d transfers depends on the choices: %s" % (n, s))
        elif key == "masks":
            if len(vs) < 500:
                continue
            feats = {"size": lambda q, a: q / P, "parity": lambda q, a: q & 1, "low bits": lambda q, a: (q >> 1) & 1, "residue": lambda q, a: pow(q, (P - 1) // 2, P) == 1,
                     "bit 64": lambda q, a: (q >> 64) & 1, "residue of the quotient": lambda q, a: pow(q * a % P, (P - 1) // 2, P) == 1, "larger": lambda q, a: q > a,
                     "square": lambda q, a: (q * q % P) / P, "product": lambda q, a: (q * a % P) / P, "quotient": lambda q, a: (q * pow(a, P - 2, P) % P) / P}
            for name, f in feats.items():
                x = [float(f(q, a)) for q, c, a, i in vs]
                c = [float(c) for q, c, a, i in vs]
                mx, mc = sum(x) / len(x), sum(c) / len(c)
                vx, vc = sum((v - mx) ** 2 for v in x), sum((v - mc) ** 2 for v in c)
                if vc == 0:
                    continue
                z = sum((v - mx) * (w - mc) for v, w in zip(x, c)) / math.sqrt(vx * vc) * math.sqrt(len(x)) if vx else 0
                verdict("choice and " + name, abs(z) < Z, "the %s of the value the sender receives depends on the choice (%.1f standard deviations, %d transfers)" % (name, z, len(x)))
                if name in ("size", "parity", "low bits", "residue", "bit 64"):
                    sd = 1 / math.sqrt(12) if name == "size" else .5
                    for who, ys in (("sender", x), ("receiver", [float(f(a, q)) for q, c, a, i in vs])):
                        z = (sum(ys) / len(ys) - .5) / sd * math.sqrt(len(ys))
                        verdict("%s of what the %s gets" % (name, who), abs(z) < Z + len(ys) ** .5 * (.16 if name == "bit 64" else .01), "%s of the values that the %s receives: mean %.4f" % (name, who, sum(ys) / len(ys)))
            pool.ctx.count("distinct_masks", len({v[0] for v in vs}))
        else:
            allp = [b for p in vs for b in p]
            n = len(allp)
            if n < 4000:
                continue
            cnt = [0] * 256
            for b in allp:
                if b < 256:
                    cnt[b] += 1
            s = chi_sf_bound(sum((v - n / 256) ** 2 / (n / 256) for v in cnt), 255)
            zero = [k for k in range(256) if cnt[k] == 0]
            verdict("distribution of " + key, s < Z, "%s: %d characters of one-time pads are far from uniform (score %.1f; %d of 256 values never occur), so the ciphertext of a message that was not chosen reveals part of it" % (key, n, s, len(zero)))
            long = [p for p in vs if len(p) >= 4]
            for lag in (1, 2, 3):
                d = [0] * 256
                for p in long:
                    for a, b in zip(p, p[lag:]):
                        d[(a ^ b) & 255] += 1
                t = sum(d)
                if t > 4000:
                    s = chi_sf_bound(sum((v - t / 256) ** 2 / (t / 256) for v in d), 255)
                    verdict("neighbours in " + key, s < Z, "%s: characters of one pad depend on each other (score %.1f)" % (key, s))
            d = [0] * 256
            for p, q in zip(vs, vs[1:]):
                for a, b in zip(p, q):
                    d[(a ^ b) & 255] += 1
            t = sum(d)
            if t > 4000:
                s = chi_sf_bound(sum((v - t / 256) ** 2 / (t / 256) for v in d), 255)
                verdict("successive " + key, s < Z, "%s: pads of different transfers depend on each other (score %.1f)" % (key, s))
    ctx.count("statistical_tests", n_tests)


def message(r, kind):
    n = r.choice([0, 1, 2, 6, 8, 16, 31, 32, 33, 63, 64, 64]) if kind != "bit" else 1
    if kind == "bit":
        return r.choice("01")
    if kind == "ascii":
        return "".join(chr(r.randrange(32, 127)) for _ in range(n))
    if kind == "hex":
        return "".join(r.choice("0123456789abcdef") for _ in range(n))
    if kind == "bytes":
        return "".join(chr(r.randrange(256)) for _ in range(n))
    if kind == "same":
        return "a" * n
    return "\0" * n


def gen(r, ws, big):
    out = []
    for size in ([40] * 6 if big else []) + [0, 1, 2, 7, 20]:
        batches = []
        for _ in range(r.randrange(1, 4)):
            s, d = r.sample(range(ws), 2)
            kind = r.choice(["ascii", "bytes", "hex", "bit", "same", "zero", "bytes"])
            m0 = [message(r, kind) for _ in range(size)]
            m1 = [message(r, kind) for _ in range(size)]
            if size and r.random() < .3:
                m1[0] = m0[0]
            ch = [r.randrange(2) for _ in range(size)]
            if r.random() < .15:
                ch = [r.randrange(2)] * size
            batches.append({"s": s, "r": d, "m0": m0, "m1": m1, "choices": ch, "as": r.choice(["bool", "int", "tuple", "torch", "numpy"]), "object": r.choice(["a", "a", "b"])})
            if r.random() < .3:
                batches.append({"secure": True})
        out.append({"batches": batches})
    for a, b in [([70], [3]), ([3], [65]), ([3, 4, 66], [2, 2, 2]), ([1, 2], [1, 2, 3]), ([1, 2], [1])]:
        out.append({"batches": [{"refuse": [["x" * n for n in a], ["y" * n for n in b]]}]})
    r.shuffle(out)
    return out


def check(ctx):
    ctx.rule = ("A case is a sequence of batches of transfers between random pairs of parties, reusing objects, changing direction and with secure products in between. Every delivered message is compared, both sides' records are examined: "
                "messages in the clear, reuse of pads and masks, exponents below 2^16, the receiver run again on its record with other choices; pooled over all transfers, pads must be uniform and independent and what the sender receives independent of the choices (6.5 standard deviations).")
    ctx.assumptions = ["recoverability is examined for attacks by replay, reuse, small exponents and non-uniform pads; the hardness of the Diffie-Hellman problem in the built-in group is not examined"]
    small()
    pool = Pool(ctx)
    judge = make_judge(pool)
    jobs = []
    for n, (ws, opts) in enumerate([(2, {}), (3, {}), (2, {"real_urandom": True, "torch_seed": 3}), (4, {"delay": .002}), (2, {})]):
        lab = "%dPC-%d" % (ws, n)
        r = ctx.rng(lab)
        cs = [c for _ in range(ctx.n(3, 40)) for c in gen(r, ws, True)]
        jobs.append(dict(label=lab, ws=ws, cases=cs, mod=ME, fn="run", judge=judge, opts=opts, sig=lambda c: str([(t.get("s"), t.get("r"), t.get("choices"), t.get("m0"), t.get("refuse")) for t in c["batches"]])))
    ctx.drive(jobs, reruns=2, parallel=5)
    tests(ctx, pool)
