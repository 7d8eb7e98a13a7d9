"""C19: objects are saved and loaded by real parties in a scratch directory; what comes back is compared with what was stored and
everything the other parties receive meanwhile is searched for the stored numbers."""
import os
import shutil
import struct
import tempfile

import torch

from ..core import Fail, agree

ME = "vf.checks.c19"
MIN_EVAL = 60


def values(seed, shape, dtype):
    g = torch.Generator().manual_seed(seed)
    if dtype.is_floating_point:
        return ((torch.rand(shape, generator=g, dtype=torch.float64) - 0.5) * 200).to(dtype)
    return torch.randint(-(2**20) if dtype == torch.int64 else -100, 2**20 if dtype == torch.int64 else 100, shape, generator=g).to(dtype)


def arrange(t, how):
    """The same values in another memory layout."""
    if how == "view":
        big = torch.cat([values(77, (5,), t.dtype), t.flatten(), values(78, (9,), t.dtype)])
        return big[5:5 + t.numel()].view(t.shape)
    if how == "strided" and t.dim() >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "param" and t.dtype.is_floating_point:
        return torch.nn.Parameter(t.clone())
    return t


def needles(ts):
    """Byte patterns that only occur when a stored number was sent."""
    out = set()
    for t in ts:
        s = t.detach()
        st = s.untyped_storage()
        full = torch.empty(0, dtype=s.dtype).set_(st) if s.layout == torch.strided else s.flatten()
        for v in full.flatten().tolist():
            if abs(v) < 1e-9 or isinstance(v, int) and abs(v) < 1000 or isinstance(v, float) and v == int(v):
                continue
            if s.dtype in (torch.float64, torch.int64):
                out.add((v, struct.pack("<d" if s.dtype == torch.float64 else "<q", v)))
            if s.dtype == torch.float32:
                out.add((v, struct.pack("<f", v)))
            if abs(v) < 2**40:
                out.add((v, struct.pack("<q", int(v * 65536))))
    return out


def search(rec, ts):
    """Stored numbers seen in the payloads; one hit of eight bytes or two distinct ones of four."""
    blob = b"\0\0\0\0\0\0\0\0".join(bytes(p.contiguous().reshape(-1).view(torch.uint8).tolist()) for e in rec for p in e.get("post", []) if p.numel())
    hit8, hit4 = [], []
    for v, b in needles(ts):
        if b in blob and b.strip(b"\0\xff") and len(set(b)) > 3:
            (hit8 if len(b) == 8 and len(b.rstrip(b"\0\xff")) >= 6 else hit4).append(v)
    return (hit8 or (hit4 if len(set(hit4)) >= 2 else []))[:5], len(blob)


def path(case, rank, name="f"):
    return os.path.join(case["dir"], "%s-%s-%d" % (name, case["id"], rank))


def closures(name):
    import pickle

    calls = []
    if name == "torch":
        return torch.save, torch.load, {}, {}, calls
    if name == "pickle":
        def sv(o, f, **k):
            calls.append(("save", sorted(k)))
            with open(f, "wb") as h:
                pickle.dump(o, h)

        def ld(f, **k):
            calls.append(("load", sorted(k)))
            with open(f, "rb") as h:
                return pickle.load(h)

        return sv, ld, {"tag": 1}, {"tagged": 2}, calls

    def sv2(o, f, **k):
        calls.append(("save", sorted(k)))
        torch.save([o], f)

    def ld2(f, **k):
        calls.append(("load", sorted(k)))
        return torch.load(f)[0]

    return sv2, ld2, {}, {"map": None}, calls


def run(case):
    import crypten
    import crypten.communicator as comm

    from .. import instrument
    from ..canary import models

    c = comm.get()
    rank, ws = c.get_rank(), c.get_world_size()
    src = case["src"]
    kind = case["kind"]
    res = {}

    def leave():
        """The parties are still in step and new sharings are right."""
        y = crypten.cryptensor(torch.tensor([2.5 + rank]), src=ws - 1)
        return bool(abs(y.get_plain_text().item() - 1.5 - ws) < 1e-3)

    if kind in ("tensor", "model"):
        if kind == "tensor":
            # every party has something of its own; only the source's counts
            mine = arrange(values(case["seed"] + 1000 * (rank != src) * (rank + 1), case["shape"] if rank == src else (2, 3), case["dtype"]), case["layout"])
            keep = mine.detach().clone()
            extra = {}
            stored = [mine]
        else:
            if case["model"] == "Net":
                mine = models.Net(n=case["n"], m=3, seed=case["seed"] + 1000 * (rank != src), extra=case["extra"], bn=case["bn"])
                extra = {"model_class": models.Net}
                from crypten.common import serial

                serial.register_safe_class(models.Registered)
            else:
                torch.manual_seed(case["seed"] + rank)
                mine = eval(case["model"], {"nn": torch.nn})
                extra = {}
            mine.train(case["train"])
            keep = {k: v.detach().clone() for k, v in list(mine.named_parameters()) + list(mine.named_buffers())}
            stored = list(mine.parameters()) + list(mine.buffers())
        how = case["how"]
        sv, ld, sk, lk, calls = closures(case["closure"])
        f = path(case, rank)
        if how == "save_from_party":
            crypten.save_from_party(mine, f, src=src, save_closure=sv, **sk)
            res["files"] = os.path.exists(f) == (rank == src)
            kw = {"f": f, "load_closure": ld}
            kw.update(lk)
        elif how == "file":
            sv(mine, f)
            del calls[:]
            kw = {"f": f, "load_closure": ld}
            kw.update(lk)
        elif how == "buffer":
            import io

            b = io.BytesIO()
            torch.save(mine, b)
            b.seek(0)
            kw = {"f": b}
        else:
            kw = {"preloaded": mine} if rank == src or case["seed"] % 2 else {}
        rec = instrument.record(payload=True)
        try:
            got = crypten.load_from_party(src=src, **kw, **extra)
        finally:
            instrument.stop_record()
        if rank != src:
            full = values(case["seed"], case["shape"], case["dtype"]) if kind == "tensor" else None
            if kind == "tensor":
                ref = [arrange(full, case["layout"])]
            elif case["model"] == "Net":
                m2 = models.Net(n=case["n"], m=3, seed=case["seed"], extra=case["extra"], bn=case["bn"])
                ref = list(m2.parameters()) + list(m2.buffers())
            else:
                torch.manual_seed(case["seed"] + src)
                m2 = eval(case["model"], {"nn": torch.nn})
                ref = list(m2.parameters()) + list(m2.buffers())
            res["leak"], res["searched"] = search(rec, ref)
        res["src"] = getattr(got, "src", None)
        res["calls"] = calls
        if kind == "tensor":
            res["type"] = type(got).__name__
            res["plain"] = got.get_plain_text()
            res["unchanged"] = bool(torch.equal(keep, mine.detach())) if not keep.is_floating_point() else bool(torch.equal(keep, mine.detach()))
        else:
            res["type"] = type(got).__name__
            res["str"] = str(got)
            res["train"] = [m.training for m in got.modules()]
            res["state"] = {k: v.detach().clone() for k, v in list(got.named_parameters()) + list(got.named_buffers())}
            res["rg"] = {k: v.requires_grad for k, v in got.named_parameters()}
            res["tied"] = got.tied is got.fc1.weight if hasattr(got, "tied") else True
            res["unchanged"] = all(torch.equal(keep[k], v) for k, v in list(mine.named_parameters()) + list(mine.named_buffers()))
            if case["encrypt"]:
                nx = crypten.nn.from_pytorch(got, torch.zeros(2, case["n"]))
                nx.encrypt(src=src)
                nx.decrypt()
                res["dec"] = {k: v for k, v in nx.state_dict().items()}
                # names change in the conversion, values do not
                res["names"] = list(res["dec"])
        res["step"] = leave()
        return res

    if kind == "shares":
        pt = {"a": crypten.mpc.arithmetic, "b": crypten.mpc.binary}[case["ptype"]]
        v = values(case["seed"], case["shape"], torch.float32)
        if case["ptype"] == "b":
            v = v.long()
        x = crypten.cryptensor(v if rank == src else torch.zeros_like(v), src=src, ptype=pt, **({"precision": case["precision"]} if case["precision"] is not None else {}))
        if case["pre"]:
            x = eval(case["pre"], {"x": x})
        before = x.share.clone()
        want = x.get_plain_text()
        sv, ld, sk, lk, calls = closures(case["closure"])
        f = path(case, rank)
        rec = instrument.record(payload=True)
        obj = {"t": x, "list": [x, x * 2]}[case["wrap"]] if case["wrap"] else x
        crypten.save(obj, f, save_closure=sv, **sk)
        y = crypten.load(f, load_closure=ld, **lk)
        instrument.stop_record()
        if case["wrap"]:
            y = y[0]
        res["payload"] = sum(p.numel() for e in rec for p in e.get("post", []) if e["op"] != "barrier") if not case["wrap"] == "list" else 0
        res["share"] = bool(torch.equal(y.share, before)) and bool(torch.equal(x.share, before))
        res["want"], res["got"] = want, y.get_plain_text()
        res["scale"] = (x.encoder.scale, y.encoder.scale)
        res["ptype"] = (str(x.ptype), str(y.ptype))
        z = (y + y) if case["ptype"] == "a" else (y._tensor ^ 1)
        y2 = y
        y2 += 1 if case["ptype"] == "a" else 0
        res["more"] = z.get_plain_text()
        res["orig"] = bool(torch.equal(x.share, before))
        res["calls"] = calls
        res["step"] = leave()
        return res

    if kind == "emodel":
        m = models.Net(n=4, m=3, seed=case["seed"] if rank == src else case["seed"] + 5, extra=False, bn=case["bn"])
        m.eval()
        dummy = torch.zeros(2, 4)
        net = crypten.nn.from_pytorch(m, dummy)
        net.encrypt(src=src)
        net.train(case["train"])
        xin = values(case["seed"] + 3, (5, 4), torch.float32) / 60
        x = crypten.cryptensor(xin, src=0)
        f = path(case, rank)
        how = case["how"]
        other = crypten.nn.from_pytorch(models.Net(n=4, m=3, seed=99 + rank, extra=False, bn=case["bn"]).eval(), dummy)
        if how == "state":
            other.encrypt(src=0)
            torch.save(net.state_dict(), f) if case["closure"] == "torch" else crypten.save(net.state_dict(), f)
            sd = torch.load(f) if case["closure"] == "torch" else crypten.load(f)
            other.load_state_dict(sd)
        elif how == "whole":
            crypten.save(net, f)
            other = crypten.load(f)
            other.eval() if not case["train"] else other.train()
        elif how == "plainstate":
            net.decrypt()
            crypten.save(net.state_dict(), f)
            other.decrypt()
            other.load_state_dict(crypten.load(f))
            res["plain"] = {k: v.clone() for k, v in other.state_dict().items()}
            net.encrypt(src=src)
            other.encrypt(src=src)
        net.eval()
        other.eval()
        res["enc"] = [p.share.sum() is not None for p in other.parameters()] is not None and all(crypten.is_encrypted_tensor(p) for p in other.parameters())
        a, b = net(x).get_plain_text(), other(x).get_plain_text()
        ref = models.Net(n=4, m=3, seed=case["seed"], extra=False, bn=case["bn"]).eval()
        res["ref"] = ref.double()(xin.double()).detach() if False else ref(xin).detach()
        res["a"], res["b"] = a, b
        net.decrypt()
        other.decrypt()
        res["pa"] = {k: v.clone() for k, v in net.state_dict().items()}
        res["pb"] = {k: v.clone() for k, v in other.state_dict().items()}
        res["pm"] = [p.detach().clone() for p in list(ref.parameters()) + list(ref.buffers()) if p.dim()]
        res["step"] = leave()
        return res

    if kind == "fail":
        f = path(case, rank)
        t = values(3, (2,), torch.float32)
        enc = crypten.cryptensor(t)
        good = path(case, rank, "good")
        torch.save(t, good)
        bad = path(case, rank, "bad")
        with open(bad, "wb") as h:
            h.write(b"not a torch file")
        lst = path(case, rank, "list")
        torch.save([1, 2], lst)

        def boom(*a, **k):
            raise RuntimeError("boom")

        env = {"M": crypten, "f": f, "good": good, "bad": bad, "lst": lst, "src": src, "t": t, "enc": enc, "boom": boom, "ws": ws, "torch": torch}
        try:
            eval(case["expr"], env)
            res["o"] = ("ok",)
        except Exception as e:  # noqa
            res["o"] = ("err", type(e).__name__, str(e)[:100])
        res["made"] = os.path.exists(f)
        res["step"] = leave()
        return res


FAILS = ["M.load_from_party(f, src=src)", "M.load_from_party(bad, src=src)", "M.load_from_party(lst, src=src)", "M.load_from_party(src=src)", "M.load_from_party(good, preloaded=t, src=src)", "M.load_from_party(good, src=ws)", "M.load_from_party(good, src=-1)", "M.load_from_party(good, src='0')",
         "M.load_from_party(good, src=src, load_closure=boom)", "M.load_from_party(good, encrypted=True, src=src)", "M.load_from_party(preloaded=[1], src=src)", "M.load_from_party(preloaded='text', src=src)", "M.load_from_party(preloaded=5, src=src)", "M.load(f)", "M.load(good, src=src)",
         "M.save_from_party(enc, f, src=src)", "M.save_from_party(t, f, src=ws)", "M.save_from_party(t, f, src='a')", "M.save(t, f, save_closure=boom)"]


# ------------------------------------------------------------------ judging
def grid_err(v, got, scale=65536):
    w = torch.trunc(v.double() * scale) / scale if v.dtype.is_floating_point else v.double()
    return float((w - got.double()).abs().max()) if v.numel() else 0.0


def judge(case, outs):
    from ..canary import models

    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("raises:" + case["kind"], "raised %s: %s" % (outs[0][1], outs[0][2:]))
    src, kind = case["src"], case["kind"]
    for r, v in enumerate(vals):
        if not v["step"]:
            return Fail("step", "party %d is out of step afterwards" % r)
        if v.get("leak"):
            return Fail("leak:" + kind, "party %d received stored numbers %s while loading from party %d" % (r, v["leak"], src))
    if kind == "tensor":
        want = values(case["seed"], case["shape"], case["dtype"])
        for r, v in enumerate(vals):
            if v["type"] != "MPCTensor" or v["src"] != src:
                return Fail("tensor", "party %d got %s with src %s" % (r, v["type"], v["src"]))
            if tuple(v["plain"].shape) != tuple(want.shape):
                return Fail("tensor", "party %d: shape %s instead of %s" % (r, tuple(v["plain"].shape), tuple(want.shape)))
            if grid_err(want, v["plain"]) > (1e-12 if case["dtype"] != torch.float64 else 2.0**-16 + 1e-5) + (2.0**-16 if case["dtype"] in (torch.float16,) else 0) and grid_err(want.float(), v["plain"]) > 2e-5:
                return Fail("tensor", "party %d: %s instead of %s" % (r, v["plain"].flatten()[:5], want.flatten()[:5]))
            if not v["unchanged"]:
                return Fail("modified", "loading changed the object of party %d" % r)
            if v.get("files") is False:
                return Fail("files", "party %d: file written by the wrong party" % r)
    if kind == "model":
        for r, v in enumerate(vals):
            if v["src"] != src or not v["unchanged"] or not v["tied"] or v.get("files") is False:
                return Fail("model", "party %d: src %s, original unchanged %s, sharing of parameters kept %s, file ok %s" % (r, v["src"], v["unchanged"], v["tied"], v.get("files")))
            if v["str"] != vals[src]["str"] or v["train"] != vals[src]["train"] or v["rg"] != vals[src]["rg"] or list(v["state"]) != list(vals[src]["state"]):
                return Fail("model", "party %d has another structure than the source" % r)
            for k, t in v["state"].items():
                s = vals[src]["state"][k]
                if t.shape != s.shape or t.dtype != s.dtype:
                    return Fail("model", "party %d: %s has shape %s" % (r, k, t.shape))
                if r != src and bool((t != 0).any()):
                    return Fail("leak:model", "party %d holds non-zero values of %s" % (r, k))
        if case["model"] == "Net":
            m = models.Net(n=case["n"], m=3, seed=case["seed"], extra=case["extra"], bn=case["bn"])
            ref = dict(list(m.named_parameters()) + list(m.named_buffers()))
            for k, t in vals[src]["state"].items():
                if not torch.equal(t, ref[k].detach()):
                    return Fail("model", "source: %s was not loaded as stored" % k)
            if case["train"] != vals[src]["train"][0]:
                return Fail("model", "mode lost")
        if case["encrypt"]:
            for r, v in enumerate(vals):
                have = sorted(((tuple(t.shape), round(float(t.double().sum()), 2)) for t in v["dec"].values()), key=str)
                if len(have) == 0:
                    return Fail("model", "no parameters after encryption")
                for k, t in vals[src]["state"].items():
                    if k in ("fc1.weight", "fc1.bias") and case["model"] == "Net" and not case["bn"]:
                        if not any(t.shape == q.shape and float((t - q).abs().max()) < 1e-3 for q in v["dec"].values()):
                            return Fail("model", "party %d: encrypting the loaded model from its source does not give the source's %s" % (r, k))
    if kind == "shares":
        for r, v in enumerate(vals):
            if not v["share"] or not v["orig"] or v["scale"][0] != v["scale"][1] or v["ptype"][0] != v["ptype"][1] or not torch.equal(v["want"], v["got"]):
                return Fail("shares", "party %d: share kept %s, original kept %s, scales %s, types %s, decrypts to %s instead of %s" % (r, v["share"], v["orig"], v["scale"], v["ptype"], v["got"].flatten()[:4], v["want"].flatten()[:4]))
            want = v["want"] * 2 if case["ptype"] == "a" else v["want"].long() ^ 1
            if not torch.equal(v["more"].double(), want.double()):
                return Fail("shares", "party %d: computing with the loaded tensor gives %s instead of %s" % (r, v["more"].flatten()[:4], want.flatten()[:4]))
            if v["payload"] > 64:
                return Fail("shares-wire", "saving and loading shares sent %d elements" % v["payload"])
    if kind == "emodel":
        for r, v in enumerate(vals):
            if not v["enc"]:
                return Fail("emodel", "loaded model is not encrypted")
            for k in ("a", "b"):
                e = float((v[k] - v["ref"]).abs().max())
                if e > 0.02 * (1 + float(v["ref"].abs().max())):
                    return Fail("emodel:" + case["how"], "party %d: output of the %s model is off by %g" % (r, {"a": "saved", "b": "loaded"}[k], e))
            if list(v["pa"]) != list(v["pb"]) and case["how"] != "x":
                return Fail("emodel", "state names differ")
            for k in v["pa"]:
                if v["pa"][k].shape != v["pb"][k].shape or float((v["pa"][k].double() - v["pb"][k].double()).abs().max() if v["pa"][k].numel() else 0) > 1e-4:
                    return Fail("emodel:" + case["how"], "party %d: %s differs after saving and loading" % (r, k))
    if kind == "fail":
        ks = {v["o"][0] for v in vals}
        if "ok" in ks:
            return Fail("fail", "%s did not fail at every party: %s" % (case["expr"], [v["o"] for v in vals]))
    return None


def check(ctx):
    ctx.rule = ("A case saves and loads one object (tensor or model from a party, shares, encrypted model, or a failing load) on real parties; returned objects are compared with the stored ones and payloads received by non-source parties are searched for the stored numbers.")
    ctx.assumptions = ["files are written and read only inside a scratch directory", "stored numbers are searched in their native, double and fixed-point encodings; one match of eight bytes or two of four count"]
    scratch = tempfile.mkdtemp(prefix="vf19-")
    try:
        jobs = []
        n = 0
        for ws, cfg, k in [(2, None, 1.0), (3, None, .6), (1, None, .3), (4, None, .25), (2, {"mpc.provider": "TTP"}, .25), (3, {"mpc.protocol": "replicated"}, .25)]:
            lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
            r = ctx.rng(lab)
            cs = []

            def add(**kw):
                cs.append(dict(kw, src=r.randrange(ws), seed=r.randrange(10**6), id="%s-%d" % (lab, len(cs)), dir=scratch))

            for _ in range(int(ctx.n(40, 700) * k)):
                dt = r.choice([torch.float32, torch.float32, torch.float64, torch.float64, torch.int64, torch.int32, torch.float16])
                shp = r.choice([(), (1,), (3,), (2, 3), (4, 1, 3), (0, 2), (17,), (50,)])
                how = r.choice(["file", "save_from_party", "buffer", "preloaded"])
                add(kind="tensor", shape=shp, dtype=dt, layout=r.choice(["plain", "plain", "view", "strided", "param"]), how=how, closure=r.choice(["torch", "torch", "pickle", "torch2"]) if how in ("file", "save_from_party") else "torch")
            for _ in range(int(ctx.n(30, 500) * k)):
                how = r.choice(["file", "save_from_party", "buffer", "preloaded"])
                md = r.choice(["Net", "Net", "Net", "nn.Linear(5, 3)", "nn.Conv2d(2, 3, 2)", "nn.BatchNorm1d(6)", "nn.ReLU()", "nn.BatchNorm2d(4)"])
                bn = r.random() < .5
                extra = r.random() < .7
                add(kind="model", model=md, n=r.randrange(1, 6), extra=extra, bn=bn, train=r.random() < .5, how=how, closure=r.choice(["torch", "pickle", "torch2"]) if how in ("file", "save_from_party") else "torch",
                    encrypt=md == "Net" and not extra and not bn)
            for _ in range(int(ctx.n(24, 400) * k)):
                b = r.random() < .35
                add(kind="shares", ptype="b" if b else "a", shape=r.choice([(), (3,), (2, 3), (0,), (30,)]), precision=r.choice([None, None, 0, 8, 20]) if not b else None, pre=r.choice([None, "x[..., :1]", "x.t()"]) if False else None,
                    closure=r.choice(["torch", "pickle", "torch2"]), wrap=r.choice([None, None, "list"]) if not b else None)
            for _ in range(int(ctx.n(12, 200) * k)):
                add(kind="emodel", how=r.choice(["state", "whole", "plainstate"]), bn=r.random() < .5, train=r.random() < .5, closure=r.choice(["torch", "crypten"]))
            for e in FAILS:
                if k >= .6 or r.random() < k:
                    add(kind="fail", expr=e)
            r.shuffle(cs)
            jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cs, mod=ME, fn="run", judge=judge, sig=lambda c: {q: str(w) for q, w in c.items() if q not in ("id", "dir")}))
        ctx.drive(jobs, reruns=2, parallel=4)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
