"""C17: hostile byte strings are decoded by the real receiving code while planted callables, the interpreter's audit events and
a scratch directory are watched; benign objects of every kind the library sends must be accepted unchanged."""
import collections
import copyreg
import importlib
import io
import os
import pickle
import pickletools
import random
import shutil
import struct
import sys
import tempfile

import torch

from ..core import Fail, agree

ME = "vf.checks.c17"
MIN_EVAL = 200

# Names the receiver may resolve: torch layers, storages and tensor rebuilders, and plain containers.
REF = set("""builtins.set collections.OrderedDict torch.storage._load_from_bytes torch._utils._rebuild_parameter torch._utils._rebuild_tensor_v2
torch.Size torch.storage._StorageBase torch.storage._TypedStorage torch.storage.TypedStorage torch.storage.UntypedStorage
torch._C.HalfStorageBase torch._C.QInt32StorageBase torch._C.QInt8StorageBase
torch.nn.modules.activation.LogSigmoid torch.nn.modules.activation.LogSoftmax torch.nn.modules.activation.ReLU torch.nn.modules.activation.Sigmoid
torch.nn.modules.activation.Softmax torch.nn.modules.batchnorm.BatchNorm1d torch.nn.modules.batchnorm.BatchNorm2d torch.nn.modules.batchnorm.BatchNorm3d
torch.nn.modules.conv.Conv1d torch.nn.modules.conv.Conv2d torch.nn.modules.conv.ConvTranspose1d torch.nn.modules.conv.ConvTranspose2d
torch.nn.modules.dropout.Dropout2d torch.nn.modules.dropout.Dropout3d torch.nn.modules.flatten.Flatten torch.nn.modules.linear.Linear
torch.nn.modules.loss.BCELoss torch.nn.modules.loss.BCEWithLogitsLoss torch.nn.modules.loss.CrossEntropyLoss torch.nn.modules.loss.L1Loss
torch.nn.modules.loss.MSELoss torch.nn.modules.pooling.AvgPool2d torch.nn.modules.pooling.MaxPool2d""".split())
STOR = "BFloat16 Bool Byte Char ComplexDouble ComplexFloat Double Float Half Int Long QInt32 QInt8 QUInt8 QUInt4x2 QUInt2x4 Short Untyped".split()
REF |= {"torch.%sStorage" % s for s in STOR}

FLAG = {"on": False, "hooked": False}
AUDIT = []
BAD_EVENTS = ("os.", "subprocess.", "socket.", "shutil.", "ctypes.", "pty.", "webbrowser.", "code.", "builtins.input", "winreg", "ftplib", "smtplib", "urllib")


def audit(ev, args):
    if not FLAG["on"]:
        return
    if ev == "pickle.find_class":
        n = "%s.%s" % (args[0], args[1])
        if n not in REF:
            AUDIT.append((ev, n))
    elif ev.startswith(BAD_EVENTS):
        AUDIT.append((ev, repr(args)[:100]))
    elif ev == "exec" and getattr(args[0], "co_filename", "").startswith("<"):
        AUDIT.append((ev, repr(args[0])[:100]))
    elif ev == "compile" and args[0] is not None and "vf_evil" in repr(args[0]):
        AUDIT.append((ev, repr(args)[:100]))
    elif ev == "import" and str(args[0]).startswith("vf.canary"):
        AUDIT.append((ev, str(args[0])))
    elif ev == "open" and "vfevil" in repr(args[0]):
        AUDIT.append((ev, repr(args[0])[:100]))


# ------------------------------------------------------------------ building pickles by hand
def s_(x):
    b = x.encode()
    return b"X" + struct.pack("<I", len(b)) + b


def b_(x):
    return b"B" + struct.pack("<I", len(x)) + x


def lit(v):
    p = pickle.dumps(v, 2)
    return p[2:-1]  # without PROTO and STOP


def glob(mod, name, form):
    if form == "ext":
        key = (mod, name)
        if key in copyreg._extension_registry:
            code = copyreg._extension_registry[key]
        else:
            code = 300 + len(copyreg._extension_registry)
            copyreg.add_extension(mod, name, code)
        return b"\x83" + struct.pack("<H", code)
    if form == "stack":
        return s_(mod) + s_(name) + b"\x93"
    return b"c" + mod.encode() + b"\n" + name.encode() + b"\n"


def call(mod, name, args, form, how):
    G = glob(mod, name, form)
    A = b"".join(args)
    tup = b"(" + A + b"t"
    if how == "reduce":
        return G + tup + b"R"
    if how == "inst":
        return b"(" + A + b"i" + mod.encode() + b"\n" + name.encode() + b"\n"
    if how == "obj":
        return b"(" + G + A + b"o"
    if how == "newobj":
        return G + tup + b"\x81"
    if how == "newobj_ex":
        return G + tup + b"}\x92"
    if how == "build":
        return G + tup + b"R" + lit({"a": 1}) + b"b"
    if how == "newbuild":
        return G + b")\x81" + lit({"a": 1}) + b"b"
    if how == "setitem":
        return G + b")\x81" + lit(1) + lit(2) + b"s"
    if how == "append":
        return G + b")\x81" + lit(1) + b"a"
    if how == "appends":
        return G + b")\x81(" + lit(1) + lit(2) + b"e"
    return G


HOWS = ["reduce", "inst", "obj", "newobj", "newobj_ex", "build", "newbuild", "setitem", "append", "appends", "global"]
FORMS = ["c", "stack", "ext"]


def legacy(pos, evil):
    """A torch file in the old format with a hostile pickle in one of its places."""
    parts = [pickle.dumps(0x1950A86A20F9469CFC6C, 2), pickle.dumps(1001, 2), pickle.dumps({"protocol_version": 1001, "little_endian": True, "type_sizes": {"short": 2, "int": 4, "long": 4}}, 2),
             pickle.dumps({"a": 1}, 2), pickle.dumps([], 2)]
    parts[pos] = evil
    return b"".join(parts)


class _Evil:
    def __init__(self, r):
        self.r = r

    def __reduce__(self):
        return self.r


def inner_torch(kind, ev):
    """Bytes for torch.storage._load_from_bytes."""
    whole = b"\x80\x02" + ev + b"."
    if kind == "raw":
        return whole
    if kind == "zip":
        b = io.BytesIO()
        torch.save({"a": torch.ones(2)}, b)
        import zipfile

        src = zipfile.ZipFile(io.BytesIO(b.getvalue()))
        o = io.BytesIO()
        z = zipfile.ZipFile(o, "w")
        for n in src.namelist():
            z.writestr(n, whole if n.endswith("data.pkl") else src.read(n))
        z.close()
        return o.getvalue()
    return legacy(int(kind[-1]), whole)


WRAPS = ["plain", "list", "dictval", "dictkey", "tuple", "popped", "memo", "odict", "state", "param", "tensorhooks", "inner:raw", "inner:zip", "inner:legacy0", "inner:legacy1", "inner:legacy2", "inner:legacy3",
         "inner:legacy4", "inner2", "truncated", "set", "proto0"]


def wrap(w, ev):
    P = b"\x80\x04"
    if w == "list":
        return P + b"](" + lit(1) + ev + b"e."
    if w == "dictval":
        return P + b"}(" + lit("k") + ev + b"u."
    if w == "dictkey":
        return P + b"}(" + ev + lit("k") + b"u."
    if w == "tuple":
        return P + lit("a") + ev + b"\x86."
    if w == "popped":
        return P + ev + b"0" + lit([1, 2]) + b"."
    if w == "memo":
        return P + ev + b"q\x05" + b"0" + lit({"x": 1}) + b"."
    if w == "odict":
        return P + glob("collections", "OrderedDict", "c") + b")R(" + lit("k") + ev + b"u."
    if w == "set":
        return P + b"\x8f(" + ev + b"\x90."
    if w == "state":
        return P + glob("torch.nn.modules.activation", "ReLU", "c") + b")\x81}(" + lit("inplace") + ev + b"ub."
    if w == "param":
        return P + glob("torch._utils", "_rebuild_parameter", "c") + b"(" + ev + b"\x89" + glob("collections", "OrderedDict", "c") + b")RtR."
    if w == "tensorhooks":
        t = pickle.dumps(torch.ones(1), 3)
        return P + t[2:-1] + b"0" + glob("collections", "OrderedDict", "c") + b"(" + ev + b"tR."
    if w.startswith("inner:"):
        return P + glob("torch.storage", "_load_from_bytes", "c") + b"(" + b_(inner_torch(w[6:], ev)) + b"tR."
    if w == "inner2":
        one = glob("torch.storage", "_load_from_bytes", "c") + b"(" + b_(inner_torch("legacy3", ev)) + b"tR"
        return P + glob("torch.storage", "_load_from_bytes", "c") + b"(" + b_(inner_torch("legacy3", one)) + b"tR."
    if w == "truncated":
        return P + ev
    if w == "proto0":
        return ev + b"."
    return P + ev + b"."


def targets(scratch):
    d = scratch + "/vfevil"
    evil = b"cvf.canary\nhit\n)R."
    T = [("vf.canary", "hit", []), ("vf.canary", "Canary", []), ("vf.canary", "Plain", []), ("vf.canary", "Canary.Inner", []), ("vf.canary.models", "Unregistered", []),
         ("vf.canary.models", "Outer.Registered", []), ("vf.canary.lazy", "x", []),
         ("os", "mkdir", [s_(d)]), ("posix", "mkdir", [s_(d)]), ("os", "system", [s_("true")]), ("posix", "system", [s_("true")]), ("nt", "system", [s_("true")]),
         ("subprocess", "Popen", [lit(["true"])]), ("subprocess", "call", [lit(["true"])]), ("builtins", "eval", [s_("__import__('vf.canary').canary.hit()")]),
         ("builtins", "exec", [s_("import vf.canary; vf.canary.hit()")]), ("__builtin__", "eval", [s_("__import__('vf.canary').canary.hit()")]),
         ("builtins", "getattr", [lit("a"), lit("upper")]), ("builtins", "setattr", []), ("builtins", "__import__", [s_("vf.canary.lazy")]),
         ("builtins", "open", [s_(d), s_("w")]), ("io", "open", [s_(d), s_("w")]), ("builtins", "map", []), ("builtins", "object", []), ("builtins", "type", [lit(1)]), ("builtins", "compile", []),
         ("importlib", "import_module", [s_("vf.canary.lazy")]), ("functools", "partial", []), ("functools", "reduce", []), ("operator", "attrgetter", [s_("a")]),
         ("operator", "methodcaller", [s_("a")]), ("types", "FunctionType", []), ("types", "CodeType", []), ("pickle", "loads", [b_(evil)]), ("_pickle", "loads", [b_(evil)]),
         ("torch", "load", []), ("torch.serialization", "load", []), ("torch.hub", "load", []), ("torch.jit", "load", []), ("torch", "save", [lit(1), s_(d)]),
         ("torch.serialization", "_legacy_load", []), ("torch._utils", "_rebuild_wrapper_subclass", []), ("torch._utils", "_rebuild_tensor", []), ("torch._tensor", "_rebuild_from_type_v2", []),
         ("torch._utils", "_import_dotted_name", [s_("vf.canary.lazy")]), ("torch.nn.functional", "linear", []), ("torch.nn.modules.module", "Module", []), ("torch.nn", "Linear", [lit(2), lit(2)]),
         ("torch.nn.modules.container", "Sequential", []), ("torch.nn.init", "ones_", []), ("torch.distributed", "barrier", []), ("numpy", "load", []), ("numpy.core.multiarray", "_reconstruct", []),
         ("copyreg", "_reconstructor", [glob("vf.canary", "Canary", "c")]), ("copy_reg", "_reconstructor", []), ("collections", "namedtuple", [s_("a"), s_("b")]), ("collections", "defaultdict", []),
         ("crypten", "init", []), ("crypten.common.serial", "register_safe_class", []), ("crypten.common.serial", "RestrictedUnpickler", []), ("crypten.config.config", "CrypTenConfig", []),
         ("crypten.communicator", "get", []), ("torch.storage", "_load_from_bytes.__globals__", []), ("torch._utils", "_rebuild_tensor_v2.__globals__", []), ("torch", "os.mkdir", [s_(d)]), ("torch", "serialization.pickle.loads", [b_(evil)]),
         ("torch.nn.modules.linear", "Linear.__init__", []), ("torch.nn.modules.linear", "torch.load", []), ("collections", "_sys.exit", []), ("collections.abc", "OrderedDict", []), ("", "eval", []), ("builtins", "set.__subclasses__", []),
         ("__main__", "hit", []), ("shutil", "rmtree", [s_(d + "-absent")]), ("pathlib", "Path", [s_(d)]), ("socket", "socket", []), ("ctypes", "CDLL", []), ("runpy", "run_path", [s_(d)]), ("pdb", "run", []), ("code", "interact", []),
         ("webbrowser", "open", []), ("timeit", "timeit", []), ("multiprocessing.context", "Process", []), ("threading", "Thread", []), ("sys", "exit", [lit(0)]), ("gc", "collect", []), ("signal", "alarm", [lit(0)])]
    for m in ("torch.nn.modules.vf_evil", "torch.vf_evil", "xtorch.nn.modules.linear", "torch.nn.modules.linear.vf", "vf_evil.torch", "collections.vf_evil", "builtins.vf_evil", "torch.nn.modules", "torch.storage.vf"):
        for n in ("Linear", "Linear2", "OrderedDict", "set", "FloatStorage", "EvilStorage", "_load_from_bytes", "Registered"):
            T.append((m, n, []))
    T += [("torch", "EvilStorage", []), ("torch", "xFloatStorage", []), ("vf.canary", "EvilStorage", []), ("vf.canary", "Storage", []), ("torch.nn.modules.linear", "linear", []), ("torch.nn.modules.linear", "Linear ", []),
          ("Torch.nn.modules.linear", "Linear", []), ("torch.nn.modules.linear", "LINEAR", [])]
    return T


def fake_modules():
    """Modules with matching-looking names whose members are canaries."""
    from .. import canary
    import types

    class Hit:
        def __init__(self, *a, **k):
            canary.HITS.append("look-alike class")

    for m in ("torch.nn.modules.vf_evil", "torch.vf_evil", "xtorch.nn.modules.linear", "torch.nn.modules.linear.vf", "vf_evil.torch", "collections.vf_evil", "builtins.vf_evil", "torch.storage.vf", "Torch.nn.modules.linear"):
        if m not in sys.modules:
            mod = types.ModuleType(m)
            for n in ("Linear", "Linear2", "OrderedDict", "set", "FloatStorage", "EvilStorage", "_load_from_bytes", "Registered", "LINEAR"):
                setattr(mod, n, Hit)
            sys.modules[m] = mod
    import torch as t

    for n in ("EvilStorage", "xFloatStorage"):
        if not hasattr(t, n):
            setattr(t, n, Hit)
    canary.EvilStorage = canary.Storage = Hit


# ------------------------------------------------------------------ watching
def limit():
    """Mutated sizes must not take the machine's memory: an allocation that large fails instead."""
    import resource

    if not FLAG.get("lim"):
        with open("/proc/self/statm") as f:
            vm = int(f.read().split()[0]) * 4096
        resource.setrlimit(resource.RLIMIT_AS, (vm + (2 << 30), vm + (2 << 30)))
        FLAG["lim"] = True


def watched(fn):
    """Runs fn; returns (outcome, effects)."""
    from .. import canary

    if not FLAG["hooked"]:
        sys.addaudithook(audit)
        FLAG["hooked"] = True
    del AUDIT[:]
    del canary.HITS[:]
    FLAG["on"] = True
    try:
        try:
            v = fn()
            o = ("ok", v)
        except SystemExit:
            o = ("err", "SystemExit")
        except Exception as e:  # noqa
            o = ("err", type(e).__name__, str(e)[:150])
    finally:
        FLAG["on"] = False
    eff = ["canary: " + h for h in canary.HITS] + ["audit: %s %s" % a for a in AUDIT]
    return o, eff


def desc(v):
    try:
        return repr(v)[:150]
    except Exception:
        return "<%s>" % type(v).__name__


PLAIN = (type(None), bool, int, float, str, bytes, complex, bytearray)


def foreign(v, extra=(), depth=0, seen=None):
    """Name of a constituent of v that is not plain data, a tensor or a known class; None if there is none."""
    seen = set() if seen is None else seen
    if id(v) in seen or depth > 30:
        return None
    seen.add(id(v))
    if isinstance(v, PLAIN) or torch.is_tensor(v) or isinstance(v, (torch.Size, torch.dtype, torch.device)):
        return None
    t = type(v)
    if t in (list, tuple, set, frozenset, collections.OrderedDict, dict):
        for q in list(v):
            r = foreign(q, extra, depth + 1, seen)
            if r:
                return r
        if isinstance(v, dict):
            for q in v.values():
                r = foreign(q, extra, depth + 1, seen)
                if r:
                    return r
        return None
    n = "%s.%s" % (t.__module__, t.__qualname__)
    if isinstance(v, type) or callable(v) and not isinstance(v, torch.nn.Module):
        n = "%s.%s" % (getattr(v, "__module__", "?"), getattr(v, "__qualname__", repr(v)))
        return None if n in REF or n in extra or n == "crypten.common.serial._safe_load_from_bytes" or n.endswith("Storage") and n.startswith("torch.") or n.startswith("torch.storage.") else n
    if n in REF or n in extra or n.startswith("torch.storage.") or (n.startswith("torch.") and n.endswith("Storage")):
        return foreign(getattr(v, "__dict__", {}), extra, depth + 1, seen) if isinstance(v, torch.nn.Module) else None
    return n


# ------------------------------------------------------------------ party side
def sweep(case):
    """Every name of every loaded module: which ones does the receiver resolve?"""
    from crypten.common import serial

    for m in case["imports"]:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    bad, n, okn = [], 0, 0
    mods = sorted(k for k in list(sys.modules) if sys.modules[k] is not None and not k.startswith("vf"))
    for k, m in enumerate(mods):
        if k % case["of"] != case["part"]:
            continue
        names = sorted(set(vars(sys.modules[m])) if hasattr(sys.modules[m], "__dict__") else [])
        for a in names:
            if not isinstance(a, str) or "\n" in a or "\n" in m:
                continue
            full = "%s.%s" % (m, a)
            form = FORMS[n % 2]
            try:
                p = (b"\x80\x04" if form == "stack" else b"") + glob(m, a, form) + b"."
            except Exception:
                continue
            n += 1
            try:
                v = serial.restricted_loads(p)
                okn += 1
            except Exception:
                continue
            if full not in REF:
                bad.append(full)
    return {"n": n, "accepted": okn, "bad": bad}


def attack(case):
    limit()
    from crypten.common import serial
    import crypten.common.serial  # noqa

    fake_modules()
    scratch = tempfile.mkdtemp(prefix="vf17-")
    out = []
    try:
        T = targets(scratch)
        reg = None
        if case.get("register"):
            from ..canary import models

            serial.register_safe_class(models.Registered)
        for (t, form, how, w) in case["items"]:
            mod, name, args = T[t % len(T)]
            try:
                ev = call(mod, name, args, form, how)
                p = wrap(w, ev)
            except Exception as e:  # noqa
                raise RuntimeError("builder: %s %s" % (type(e).__name__, e))
            if os.path.exists(scratch + "/vfevil"):
                shutil.rmtree(scratch + "/vfevil", ignore_errors=True) if os.path.isdir(scratch + "/vfevil") else os.remove(scratch + "/vfevil")
            sys.modules.pop("vf.canary.lazy", None)
            copyreg.clear_extension_cache()
            o, eff = watched(lambda: serial.restricted_loads(p))
            if os.path.exists(scratch + "/vfevil"):
                eff.append("file created")
            if o[0] == "ok":
                o = ("ok", desc(o[1]))
            out.append((("%s.%s" % (mod, name), form, how, w), o, eff))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def benign(r, deep=0):
    """A random object of the kinds the library sends."""
    k = r.randrange(16 if deep < 3 else 9)
    if k == 0:
        return r.choice([None, True, False, 0, -1, 2**40, -(2**70), 1.5, float("inf"), "", "text", "\u00e9\u4e2d", b"", b"\x00\xff" * 4])
    if k == 1:
        dt = r.choice([torch.float32, torch.float64, torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.bool, torch.float16, torch.bfloat16])
        shp = r.choice([(), (0,), (3,), (2, 3), (1, 0, 2), (200,)])
        return (torch.arange(max(1, int(torch.Size(shp).numel()))) % 2).reshape(-1)[: torch.Size(shp).numel()].reshape(shp).to(dt)
    if k == 2:
        return torch.Size([r.randrange(5) for _ in range(r.randrange(4))])
    if k == 3:
        return torch.nn.Parameter(torch.arange(6.0).reshape(2, 3), requires_grad=r.random() < 0.5)
    if k == 4:
        return torch.arange(24.0).reshape(4, 6).t()[1:3, ::2]
    if k == 5:
        return {"function": "additive", "device": "cpu", "args": (torch.Size([2, 3]), torch.Size([3, 2]), "matmul"), "kwargs": {"padding": (1, 1), "stride": 2}}
    if k == 6:
        return "terminate"
    if k == 7:
        return collections.OrderedDict([("a", torch.ones(2)), ("b", [1, 2])])
    if k == 8:
        return r.randrange(-1000, 1000)
    if k in (9, 10):
        return [benign(r, deep + 1) for _ in range(r.randrange(4))]
    if k == 11:
        return tuple(benign(r, deep + 1) for _ in range(r.randrange(4)))
    if k == 12:
        return {("k%d" % i if r.random() < .7 else i): benign(r, deep + 1) for i in range(r.randrange(4))}
    if k == 13:
        return {1, 2, "x"}
    if k == 14:
        return frozenset([1, 2])
    return layer(r)


def layer(r):
    nn = torch.nn
    torch.manual_seed(r.randrange(1000))
    return r.choice([lambda: nn.Linear(3, 2, bias=r.random() < .5), lambda: nn.Conv1d(1, 2, 2), lambda: nn.Conv2d(1, 2, (2, 1), padding=1), lambda: nn.ConvTranspose1d(1, 2, 2), lambda: nn.ConvTranspose2d(1, 2, 2),
                     lambda: nn.BatchNorm1d(3), lambda: nn.BatchNorm2d(3), lambda: nn.BatchNorm3d(2), lambda: nn.Dropout2d(0.3), lambda: nn.Dropout3d(), lambda: nn.Flatten(), lambda: nn.ReLU(), lambda: nn.Sigmoid(),
                     lambda: nn.Softmax(dim=1), lambda: nn.LogSoftmax(dim=0), lambda: nn.LogSigmoid(), lambda: nn.AvgPool2d(2), lambda: nn.MaxPool2d(2, padding=1), lambda: nn.BCELoss(), lambda: nn.BCEWithLogitsLoss(),
                     lambda: nn.CrossEntropyLoss(), lambda: nn.L1Loss(), lambda: nn.MSELoss()])()


def same(a, b):
    """Description of the first difference, or None."""
    if type(a) is not type(b):
        return "type %s became %s" % (type(a), type(b))
    if torch.is_tensor(a):
        if a.dtype != b.dtype or a.shape != b.shape or not torch.equal(a, b) or a.requires_grad != b.requires_grad:
            return "tensor differs"
        return None
    if isinstance(a, dict):
        if list(a) != list(b):
            return "keys differ"
        return next((d for d in (same(a[k], b[k]) for k in a) if d), None)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "length differs"
        return next((d for d in (same(p, q) for p, q in zip(a, b)) if d), None)
    if isinstance(a, torch.nn.Module):
        if str(a) != str(b) or a.training != b.training:
            return "module %s became %s" % (a, b)
        return same(dict(a.state_dict()), dict(b.state_dict()))
    return None if a == b else "%r became %r" % (a, b)


def accept(case):
    from crypten.common import serial
    from ..canary import models

    serial.register_safe_class(models.Registered)
    out = []
    for sd in case["seeds"]:
        r = random.Random(sd)
        v = benign(r) if sd % 3 else layer(r)
        if sd % 7 == 0:
            v = models.Registered(r.randrange(1, 5))
            v.train(r.random() < 0.5)
        p = pickle.dumps(v, protocol=r.choice([4, 5, None]))
        o, eff = watched(lambda: serial.restricted_loads(p))
        d = same(v, o[1]) if o[0] == "ok" else "rejected: %s" % (o[1:],)
        out.append((repr(v)[:120], d, eff, foreign(o[1], {"vf.canary.models.Registered"}) if o[0] == "ok" else None))
    return out


def fuzz(case):
    """Mutated pickles: may fail or not, but never any effect nor a foreign constituent."""
    limit()
    from crypten.common import serial

    fake_modules()
    scratch = tempfile.mkdtemp(prefix="vf17-")
    out = []
    try:
        T = targets(scratch)[:60]
        for sd in case["seeds"]:
            r = random.Random(sd)
            base = pickle.dumps(benign(r) if sd % 2 else layer(r), protocol=r.choice([3, 4]))
            ops = [(o.name, p) for o, a, p in pickletools.genops(base)]
            k = r.randrange(5)
            cuts = [p for n, p in ops if n != "PROTO"]
            mod, name, args = r.choice(T)
            if k == 0:  # hostile call in the middle, left on the stack or popped
                at = r.choice(cuts)
                q = base[:at] + call(mod, name, args, r.choice(["c", "stack"]), r.choice(HOWS)) + r.choice([b"", b"0"]) + base[at:]
            elif k == 1:  # rename a global
                names = [(b"torch.nn.modules.linear", b"vf.canary"), (b"Linear", b"Canary"), (b"_rebuild_tensor_v2", b"_rebuild_tensor"), (b"torch._utils", b"vf.canary"), (b"OrderedDict", b"abc"), (b"collections", b"posix"),
                         (b"_load_from_bytes", b"os.system"), (b"torch.storage", b"pickle"), (b"FloatStorage", b"load"), (b"_rebuild_parameter", b"_import_dotted_name")]
                q = base
                for a, b in r.sample(names, 4):
                    q = q.replace(a, b) if r.random() < .5 or len(a) != len(b) else q.replace(a, b)
            elif k == 2:  # byte noise
                q = bytearray(base)
                for _ in range(r.choice([1, 2, 5])):
                    q[r.randrange(len(q))] = r.randrange(256)
                q = bytes(q)
            elif k == 3:  # drop or repeat an opcode
                i = r.randrange(len(ops))
                a, b = ops[i][1], (ops[i + 1][1] if i + 1 < len(ops) else len(base))
                q = base[:a] + (base[a:b] * r.choice([0, 2])) + base[b:]
            else:  # truncate
                q = base[: r.randrange(len(base))]
            if len(q) > 3 and b"\x5c" * 9 in q:
                continue
            # LONG_BINPUT-style indices above the stream's own size only cost memory
            try:
                if any(o.name in ("LONG_BINPUT", "PUT") and int(a) > 10**6 for o, a, p in pickletools.genops(q)):
                    continue
            except Exception:
                pass
            o, eff = watched(lambda: serial.restricted_loads(q))
            if os.path.exists(scratch + "/vfevil"):
                eff.append("file created")
            out.append((sd, k, o[0], eff, foreign(o[1]) if o[0] == "ok" else None))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def hooks(case):
    """Tensors and models that arrive with backward hooks attached."""
    from crypten.common import serial

    def odict(ev):
        return glob("collections", "OrderedDict", "c") + b")R(" + lit(0) + ev + b"u"

    relu = glob("torch.nn.modules.activation", "ReLU", "c") + b")\x81" + lit({"inplace": False, "training": True}) + b"b"
    t = pickle.dumps(torch.ones(2), 3)[2:-1]
    out = []
    empty = glob("collections", "OrderedDict", "c") + b")R"
    m = torch.nn.Linear(2, 2)
    m._backward_hooks[0] = torch.nn.ReLU()
    seq = torch.nn.Linear(2, 2)
    seq.inner = torch.nn.Linear(2, 2)
    seq.inner._backward_hooks[0] = torch.nn.ReLU()
    par = torch.nn.Linear(2, 2)
    deep = torch.nn.Linear(2, 2)
    deep.a = torch.nn.ReLU()
    deep.a.b = torch.nn.ReLU()
    deep.a.b.c = torch.nn.Linear(2, 2)
    deep.a.b.c._backward_hooks[0] = torch.nn.ReLU()
    for label, p in (("parameter with a hook", b"\x80\x03" + glob("torch._utils", "_rebuild_parameter", "c") + b"(" + t + b"\x88" + odict(relu) + b"tR."),
                     ("model with a hook", pickle.dumps(m)), ("submodule with a hook", pickle.dumps(seq)), ("inner submodule with a hook", pickle.dumps(deep)),
                     ("plain parameter", b"\x80\x03" + glob("torch._utils", "_rebuild_parameter", "c") + b"(" + t + b"\x88" + empty + b"tR."), ("plain model", pickle.dumps(par))):
        o, eff = watched(lambda: serial.restricted_loads(p))
        out.append((label, o[0], o[1:] if o[0] == "err" else None, eff))
    return out


def registry(case):
    from crypten.common import serial
    from ..canary import models
    from .. import canary

    out = []
    kind = case["kind"]
    if kind == "notclass":
        for v in (canary.hit, models.Registered(), "os.system", None, os.mkdir, lambda: 1):
            o, eff = watched(lambda: serial.register_safe_class(v))
            out.append(("register %r" % (v,), "must reject", o[0], eff))
        p = b"cvf.canary\nhit\n)R."
        o, eff = watched(lambda: serial.restricted_loads(p))
        out.append(("call of a function after trying to register it", "must reject", o[0], eff))
    elif kind == "exact":
        serial.register_safe_class(models.Registered)
        for cls, ok in ((models.Registered, True), (models.RegisteredToo, False), (models.Unregistered, False), (canary.Plain, False)):
            o, eff = watched(lambda: serial.restricted_loads(pickle.dumps(cls())))
            out.append((cls.__name__, "must accept" if ok else "must reject", o[0] if o[0] == "err" or type(o[1]) is cls else "ok:%s" % type(o[1]).__name__, eff))
        p = b"\x80\x04" + glob("vf.canary.models", "Outer.Registered", "stack") + b")\x81."
        o, eff = watched(lambda: serial.restricted_loads(p))
        out.append(("Outer.Registered", "must reject", o[0], eff))
        p = b"\x80\x04" + glob("vf.canary", "models.Registered", "stack") + b")R."
        o, eff = watched(lambda: serial.restricted_loads(p))
        out.append(("vf.canary / models.Registered", "any", o[0], eff))
        serial.register_safe_class(models.Registered)
        o, eff = watched(lambda: serial.restricted_loads(pickle.dumps(models.Registered())))
        out.append(("registered twice", "must accept", o[0], eff))
    return out


def wire(case):
    """A hostile sender and honest receivers on the real communicator."""
    limit()
    import crypten
    import crypten.communicator as comm
    from crypten.communicator import distributed_communicator as dc

    from ..canary import models

    fake_modules()
    c = comm.get()
    rank, ws = c.get_rank(), c.get_world_size()
    src, via = case["src"], case["via"]
    scratch = case["dir"]
    T = targets(scratch)
    mod, name, args = T[case["target"] % len(T)]
    how, w = case["how"], case["wrap"]
    raw = wrap(w, call(mod, name, args, case["form"], how)) if case["evil"] else pickle.dumps({"a": torch.arange(3), "n": case["target"]})
    res = None
    if via == "send_obj":
        if rank == src:
            for dst in range(ws):
                if dst != src:
                    _raw(dc, lambda: c.send_obj(1, dst), raw)
            res = ("sent",)
        else:
            res = watched(lambda: c.recv_obj(src))
    elif via == "broadcast_obj":
        if rank == src:
            _raw(dc, lambda: c.broadcast_obj(1, src), raw)
            res = ("sent",)
        else:
            res = watched(lambda: c.broadcast_obj(None, src))
    elif via == "load_from_party":
        if rank == src:
            _raw(dc, lambda: c.broadcast_obj(1, src), raw)
            res = ("sent",)
        else:
            res = watched(lambda: crypten.load_from_party("ignored", src=src, model_class=models.Registered))
    elif via == "unregistered":
        m = models.Unregistered() if case["evil"] else torch.nn.Linear(2, 2)
        if rank == src:
            crypten.load_from_party(preloaded=m, src=src)
            res = ("sent",)
        else:
            res = watched(lambda: crypten.load_from_party(src=src, **({"model_class": models.Registered} if case["target"] % 2 else {})))
    elif via == "ttp":
        if rank == src:
            t = comm.get().get_ttp_rank()
            _raw(dc, lambda: c.send_obj(1, t, c.ttp_group), raw)
            import time

            time.sleep(1.5)
        made = os.path.exists(scratch + "/vfevil")
        return {"res": ("sent",), "made": made, "after": True}
    made = os.path.exists(scratch + "/vfevil")
    if res[0] != "sent":
        (o, eff) = res
        res = (o[0], desc(o[1]) if o[0] == "ok" else o[1:], eff)
    # the parties are still in step
    x = crypten.cryptensor(torch.tensor([1.0 + rank]), src=src)
    after = bool(abs(x.get_plain_text().item() - 1 - src) < 1e-3)
    return {"res": res, "made": made, "after": after}


def _raw(dc, fn, raw):
    """Lets the hostile party put arbitrary bytes on the wire."""
    class P:
        @staticmethod
        def dumps(o, *a, **k):
            return raw

        def __getattr__(self, n):
            return getattr(pickle, n)

    old = dc.pickle
    dc.pickle = P()
    try:
        fn()
    finally:
        dc.pickle = old


# ------------------------------------------------------------------ judges
def single(outs):
    vals, f = agree(outs)
    if f:
        return None, f
    if vals is None:
        return None, Fail("harness", "raised %s" % (outs[0][1:],))
    return vals, None


def j_sweep(case, outs):
    vals, f = single(outs)
    if f:
        return f
    if vals[0]["bad"]:
        return Fail("names", "the receiver resolves names that are not plain data or registered classes: %s (%d in all)" % (vals[0]["bad"][:12], len(vals[0]["bad"])))
    return None


def j_attack(case, outs):
    vals, f = single(outs)
    if f:
        return f
    for what, o, eff in vals[0]:
        if eff:
            return Fail("effect", "decoding a message naming %s (%s/%s in %s) had effects %s" % (what + (eff,)))
        if o[0] == "ok" and what[3].startswith("inner") and what[0].rsplit(".", 1)[-1] == "FloatStorage":
            continue  # torch's own file reader maps the storage names to markers, whatever module they claim
        if o[0] == "ok":
            return Fail("accepted", "a message naming %s (%s/%s in %s) was accepted: %s" % (what + (o[1],)))
    return None


def j_accept(case, outs):
    vals, f = single(outs)
    if f:
        return f
    for what, d, eff, fr in vals[0]:
        if d or eff:
            return Fail("benign", "object %s: %s %s" % (what, d, eff))
        if fr:
            return Fail("harness", "walker does not know %s in %s" % (fr, what))
    return None


def j_fuzz(case, outs):
    vals, f = single(outs)
    if f:
        return f
    for sd, k, o, eff, fr in vals[0]:
        if eff or fr:
            return Fail("fuzz", "mutated pickle (seed %d, mutation %d): effects %s, foreign constituent %s" % (sd, k, eff, fr))
    return None


def j_hooks(case, outs):
    vals, f = single(outs)
    if f:
        return f
    for label, o, err, eff in vals[0]:
        if eff or (o == "ok") != label.startswith("plain"):
            return Fail("hooks", "%s: %s %s %s" % (label, o, err, eff))
    return None


def j_reg(case, outs):
    vals, f = single(outs)
    if f:
        return f
    for what, want, o, eff in vals[0]:
        if eff and want != "must accept":
            return Fail("registry", "%s: effects %s" % (what, eff))
        if want == "must accept" and o != "ok" or want == "must reject" and o != "err":
            return Fail("registry", "%s %s, but was: %s" % (what, want, o))
    return None


def j_wire(case, outs):
    vals, f = single(outs)
    made = os.path.exists(case["dir"] + "/vfevil")
    if made:
        p = case["dir"] + "/vfevil"
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    if f:
        return f
    for r, v in enumerate(vals):
        if v["made"] or made:
            return Fail("wire-effect", "a hostile object sent by party %d through %s created a file at a receiver" % (case["src"], case["via"]))
        if not v["after"]:
            return Fail("wire-sync", "after a rejected object the parties are out of step (%s)" % case["via"])
        if v["res"][0] == "sent":
            continue
        o, val, eff = v["res"]
        if eff and case["evil"]:
            return Fail("wire-effect", "party %d receiving through %s: effects %s" % (r, case["via"], eff))
        if case["evil"] and o == "ok":
            return Fail("wire-accept", "party %d accepted a hostile object through %s: %s" % (r, case["via"], val))
        if not case["evil"] and o != "ok" and case["via"] != "load_from_party":
            return Fail("wire-reject", "party %d rejected a benign object through %s: %s" % (r, case["via"], val))
    return None


IMPORTS = ["subprocess", "runpy", "pdb", "code", "codeop", "pty", "shutil", "ctypes", "webbrowser", "timeit", "platform", "importlib.util", "multiprocessing.util", "torch.utils.cpp_extension", "torch.utils.data", "torch.hub", "torch.jit",
           "torch.package", "crypten.mpc.provider", "crypten.nn", "crypten.optim", "crypten.models", "numpy.f2py", "distutils.core", "pydoc", "sqlite3", "xmlrpc.client", "cgitb", "bdb", "asyncio.subprocess"]


def check(ctx):
    ctx.rule = ("A case decodes a batch of byte strings with the real receiving code; planted callables, interpreter audit events and a scratch directory show any effect. Distinct: signature of the batch.")
    ctx.assumptions = ["executing code would show as a call of a planted callable, an audit event, a file or a resolved foreign name", "denial of service by large or deeply nested messages is out of scope"]
    r = ctx.rng("attack")
    import tempfile as tf

    scratch = tf.mkdtemp(prefix="vf17-wire-")
    try:
        nt = len(targets("/x"))
        allitems = [(t, f, h, w) for t in range(nt) for h in HOWS for f in (FORMS if h != "inst" else ["c"]) for w in WRAPS]
        must = [(t, "c", "reduce", w) for t in range(nt) for w in ("plain", "popped", "inner:legacy3", "inner:raw")] + [(t, f, h, "plain") for t in range(7) for f in FORMS for h in HOWS]
        items = must + r.sample(allitems, ctx.n(30000, len(allitems)))
        r.shuffle(items)
        ac = [{"items": items[k:k + 400], "register": k % 800 == 0} for k in range(0, len(items), 400)]
        no = {"no_init": True}
        jobs = [dict(label="names", ws=1, cases=[{"imports": IMPORTS, "part": k, "of": 8} for k in range(8)], mod=ME, fn="sweep", judge=j_sweep, opts=no),
                dict(label="attacks", ws=1, cases=ac, mod=ME, fn="attack", judge=j_attack, opts=no, sig=lambda c: c["items"][:5]),
                dict(label="benign", ws=1, cases=[{"seeds": [r.randrange(10**6) for _ in range(50)]} for _ in range(ctx.n(12, 200))], mod=ME, fn="accept", judge=j_accept, opts=no),
                dict(label="mutated", ws=1, cases=[{"seeds": [r.randrange(10**9) for _ in range(300)]} for _ in range(ctx.n(80, 1500))], mod=ME, fn="fuzz", judge=j_fuzz, opts=no, sig=lambda c: c["seeds"][0]),
                dict(label="registered", ws=1, cases=[{"kind": "notclass"}, {"kind": "exact"}], mod=ME, fn="registry", judge=j_reg, opts=no),
                dict(label="hooks", ws=1, cases=[{"kind": "hooks"}], mod=ME, fn="hooks", judge=j_hooks, opts=no)]
        for ws in (2, 3):
            cs = []
            for i in range(ctx.n(200, 2000)):
                cs.append({"via": r.choice(["send_obj", "broadcast_obj", "load_from_party", "unregistered"]), "src": r.randrange(ws), "target": r.randrange(nt), "how": r.choice(HOWS), "form": r.choice(["c", "stack"]), "wrap": r.choice(WRAPS),
                           "evil": r.random() < .8, "dir": scratch})
            jobs.append(dict(label="wire-%d" % ws, ws=ws, cases=cs, mod=ME, fn="wire", judge=j_wire))
            mk = next(i for i, t in enumerate(targets("/x")) if t[:2] == ("posix", "mkdir"))
        for i in range(ctx.n(2, 12)):
            cs = [{"via": "ttp", "src": 0, "target": mk, "how": r.choice(["reduce", "obj", "inst"]), "form": "c", "wrap": ["plain", "popped", "inner:legacy3", "dictval"][i % 4], "evil": True, "dir": scratch}]
            jobs.append(dict(label="ttp-%d" % i, ws=2, cfg={"mpc.provider": "TTP"}, cases=cs, mod=ME, fn="wire", judge=j_wire))
        ctx.drive(jobs, reruns=2, parallel=4)
        ctx.count("attack_payloads", len(items))
        # every item of a batch is one evaluation of the receiver
        ctx.evaluations += len(items)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
