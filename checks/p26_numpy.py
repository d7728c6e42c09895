"""P26: numpy scalars and arrays become plain numbers and nested lists and come back with dtype, shape and elements."""
import numpy as np
import serde

from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import Cls, ClsT, DictT, Fld, Int, ListT, MISSING, ModelError, OptT, Opts, Program, SetT, FrozenSetT, Str, TupleT, Ty, Unknown, VarTupleT, lit, same

PROP = "P26"
BUDGET = {"quick": 2500, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, value or data, function) judged against the model, or (type, value, format) round trips"
MIN = {"evaluations": 27000, "distinct": 26000, "accepts": 8400, "rejects": 90, "plain": 2200, "round_trips": 17000, "direct": 1800,
       "direct_containers": 2000, "scalars": 6300, "arrays": 4700, "jaxtyping": 1600, "datetimes": 470, "odd_datetimes": 110,
       "empty_arrays": 680, "zero_dim": 440, "high_dim": 880, "extremes": 5200, "nonfinite": 150, "strided": 1200, "wrong_shape": 90,
       "skip_default": 1100}

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float16", "float32", "float64"]
ALIASES = {"byte": "int8", "ubyte": "uint8", "short": "int16", "intc": "int32", "int_": "int64", "uint": "uint64", "half": "float16", "single": "float32",
           "double": "float64"}
STRS = ["", "a", "x y", "é", "1", "true", "q\"t", "line\nbreak"]
TIMES = ["2020-01-01", "1969-12-31T23:59:59", "2024-02-29T12:30:15.250", "2020-01-01T03:30:00.000001", "2020", "2020-05", "1900-01-01T00", "9999-12-31"]
ODD_TIMES = ["NaT", "2020-01-01T00:00:00.000000001", "12000-01-01", "-0044-03-15", "2262-04-11T23:47:16.854775807"]


def number(g, dt, rec):
    r = g.r
    if dt in INTS:
        i = np.iinfo(dt)
        if r.random() < 0.25:
            rec.event("extremes")
            return r.choice([i.min, i.max])
        return r.randint(max(i.min, -1000), min(i.max, 1000))
    if dt in FLOATS:
        f = np.finfo(dt)
        k = r.random()
        if k < 0.08 and g.nasty_floats:
            rec.event("nonfinite")
            return r.choice([float("nan"), float("inf"), -float("inf")])
        if k < 0.3:
            rec.event("extremes")
            return float(r.choice([f.max, f.min, f.tiny, f.smallest_subnormal, f.eps, -0.0]))
        return float(np.dtype(dt).type(r.choice([0.0, 0.1, -2.5, 1.0, 3.14159265358979, r.uniform(-100, 100)])))
    if dt == "bool_":
        return r.choice([True, False])
    if dt == "str_":
        return r.choice(STRS)
    raise AssertionError(dt)


class NpS(Ty):
    """A numpy scalar."""
    hashable = True

    def __init__(self, name, rec):
        self.name, self.dt, self.rec = name, ALIASES.get(name, name), rec
        self.keyable = self.dt in INTS
        self.kind = "np"

    def src(self):
        return f"_np.{self.name}"

    @property
    def type(self):
        return getattr(np, self.name)

    def gen(self, g):
        if self.dt == "datetime64":
            self.rec.event("datetimes")
            if g.r.random() < 0.25:
                self.rec.event("odd_datetimes")
                return np.datetime64(g.r.choice(ODD_TIMES if g.nasty_floats else ODD_TIMES[1:]))
            return np.datetime64(g.r.choice(TIMES))
        self.rec.event("scalars")
        return self.type(number(g, self.dt, self.rec))

    def ser(self, v, o):
        if self.dt == "datetime64":
            item = v.item()
            return item.isoformat() if hasattr(item, "isoformat") else str(v)
        return v.item()

    def de(self, w, o):
        if self.dt == "datetime64":
            if not isinstance(w, str):
                raise Unknown
            return np.datetime64(w)
        want = int if self.dt in INTS else float if self.dt in FLOATS else bool if self.dt == "bool_" else str
        if type(w) is int and want is float and o.num:
            w = float(w)
        if type(w) is not want:
            raise Unknown
        return self.type(w)

    def de_key(self, w, o):
        return self.type(w)

    def isa(self, v):
        return "yes" if type(v) is self.type else "no"


class NpA(Ty):
    """numpy arrays; dt None: any dtype."""
    kind = "nparray"

    def __init__(self, name, rec, form="_npt.NDArray"):
        self.name, self.dt, self.rec, self.form = name, ALIASES.get(name, name), rec, form

    def src(self):
        return self.form if self.name is None else f"_npt.NDArray[_np.{self.name}]"

    def dtype(self):
        return np.dtype(getattr(np, self.name))

    def gen(self, g):
        r = g.r
        dt = self.dt or r.choice(["int64", "float64", "bool_", "str_"])
        self.rec.event("arrays")
        shape = r.choice([(), (0,), (1,), (2,), (3,), (2, 2), (1, 3), (3, 1), (2, 0), (2, 2, 2), (1, 1, 1, 2)])
        if self.dt is None and 0 in shape:
            shape = (2,)
        self.rec.event("zero_dim" if shape == () else "empty_arrays" if 0 in shape else "high_dim" if len(shape) > 2 else "flat")
        n = int(np.prod(shape))
        a = np.array([number(g, dt, self.rec) for _ in range(n)], dtype=getattr(np, dt)).reshape(shape)
        k = r.random()
        if k < 0.15 and a.ndim == 2:
            self.rec.event("strided")
            a = np.asfortranarray(a)
        elif k < 0.3 and a.ndim >= 1:
            self.rec.event("strided")
            a = a[::-1]
        elif k < 0.35 and a.dtype.kind in "if" and a.dtype.itemsize > 1 and self.dt is None:
            a.flags.writeable = False
        return a

    def ser(self, v, o):
        return v.tolist()

    def de(self, w, o):
        if not self.fits(w):
            raise Unknown
        return np.array(w, dtype=self.dtype()) if self.name else np.array(w)

    def fits(self, w):
        kind = self.dt
        if isinstance(w, (list, tuple)):
            return len({len(x) if isinstance(x, (list, tuple)) else -1 for x in w}) <= 1 and all(self.fits(x) for x in w)
        if kind is None:
            return w is not None and not isinstance(w, dict)
        return type(w) is (int if kind in INTS else float if kind in FLOATS else bool if kind == "bool_" else str)

    def isa(self, v):
        return "yes" if isinstance(v, np.ndarray) and (self.name is None or v.dtype == self.dtype() or self.dt == "str_") else "no"


class NpJ(NpA):
    """jaxtyping arrays of numpy."""
    KINDS = {"Float16": "float16", "Float32": "float32", "Float64": "float64", "Float": "float64", "Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64",
             "Int": "int64", "UInt8": "uint8", "UInt16": "uint16", "UInt32": "uint32", "UInt64": "uint64", "UInt": "uint64", "Integer": "int64", "Bool": "bool_"}

    def __init__(self, kname, shape, rec):
        super().__init__(self.KINDS[kname], rec)
        self.kname, self.shape = kname, shape

    def src(self):
        dims = " ".join(map(str, self.shape))
        return f"_jt.{self.kname}[_np.ndarray, {dims!r}]"

    def gen(self, g):
        self.rec.event("jaxtyping")
        n = int(np.prod(self.shape))
        return np.array([number(g, self.dt, self.rec) for _ in range(n)], dtype=self.dtype()).reshape(self.shape)

    def isa(self, v):
        return "yes" if isinstance(v, np.ndarray) and v.dtype == self.dtype() and v.shape == self.shape else "no"


class NpPG(PG):
    rec = None

    def scalar(self, keyable=False, hashable=False):
        r = self.r
        if r.random() < 0.2:
            return super().scalar(keyable=keyable, hashable=hashable)
        if keyable:
            return NpS(r.choice(INTS), self.rec)
        k = r.random()
        if k < 0.45 or hashable:
            return NpS(r.choice(INTS + FLOATS * 2 + ["bool_", "str_"] + list(ALIASES) + ["datetime64"] * (4 if not hashable else 0)), self.rec)
        return self.array()

    def array(self):
        r = self.r
        k = r.random()
        if k < 0.15:
            return NpA(None, self.rec, "_np.ndarray")
        if k < 0.75:
            return NpA(r.choice(INTS + FLOATS * 2 + ["bool_"] + list(ALIASES)), self.rec)
        return NpJ(r.choice(list(NpJ.KINDS)), r.choice([(2,), (1,), (2, 2), (3, 1), (1, 2, 2), (0,)]), self.rec)


HEADER = "import numpy as _np, numpy.typing as _npt, jaxtyping as _jt\n"


def case(r, rec, i, cfg):
    pg = NpPG(r, depth=r.choice([0, 1, 2, 3]), max_fields=4, ncls=(1, 3), unions=False, any=False, bare=False, counter=False, defaultdict=False, enums=False,
              literals=False, strser=False, dates=False, future=0.1, plain=0.1, check=("strict", "strict", "disabled"), inherit=0.1, transparent=0.1)
    pg.rec = rec
    prog = pg.program()
    prog.header += HEADER
    if r.random() < 0.2:
        skipping(r, rec, pg)
    with Case(rec, prog) as c:
        if i < 3:
            rec.sample(prog.source())
        g = Gen(r, c.ns, nasty_floats=r.random() < 0.3)
        for cl in cls_nodes(prog)[::-1][:2]:
            t = ClsT(cl)
            v = c.value(t, g)
            fields(c, rec, r, cl, t, v)
        for _ in range(3):
            k = r.random()
            if k < 0.5:
                t = pg.scalar() if k < 0.25 else pg.array()
            else:
                inner = r.choice([pg.array, lambda: NpS(r.choice(INTS + FLOATS + ["bool_"]), rec)])()
                t = r.choice([lambda: ListT(inner), lambda: DictT(Str(), inner), lambda: TupleT([inner, Int()]), lambda: OptT(inner), lambda: VarTupleT(inner),
                              lambda: ListT(ListT(inner)), lambda: DictT(Str(), OptT(inner))])()
            if not any(isinstance(n, (NpS, NpA)) for n in t.walk()):
                continue
            direct(c, rec, r, t, c.value(t, g))


def plain(w):
    """Only what every Python has."""
    if isinstance(w, dict):
        return all(plain(k) and plain(x) for k, x in w.items())
    if isinstance(w, (list, tuple, set, frozenset)):
        return all(plain(x) for x in w)
    return type(w).__module__ != "numpy"


def fields(c, rec, r, cl, t, v):
    typ = c.ns[cl.name]
    named = r.random() < 0.8
    kw = {"reuse_instances": False, "convert_sets": True} if r.random() < 0.7 else {}
    fn = serde.to_dict if named else serde.to_tuple
    e = expect(t.ser, v, Opts(named=named, reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets")))
    line = f"print({fn.__name__}({lit(v)}, **{kw}))"
    out = call(fn, v, **kw)
    c.must(e, out, fn.__name__, line)
    if out.kind == "ok":
        rec.event("plain")
        if not plain(out.v):
            c.fail(f"{fn.__name__} left numpy objects in {short(out.v)}", line)
    e = expect(t.ser, v, Opts(named=named, reuse=False, sets=True))
    if e.kind != "ok":
        rec.skip("form not determined")
        return
    back = serde.from_dict if named else serde.from_tuple
    c.must(expect(t.de, e.v, Opts(named=named)), call(back, typ, e.v), back.__name__, f"print({back.__name__}({cl.name}, {lit(e.v)}))")
    if named and not cl.transparent and cl.decorator != "plain" and cl.check == "strict":
        shape(c, rec, r, cl, typ, e.v)
    for fmt in ("json", "yaml", "toml", "msgpack", "pickle"):
        m = FMT[fmt]
        out = call(getattr(m, f"to_{fmt}"), v)
        lines = (f"v = {lit(v)}", f"d = to_{fmt}(v)", f"print(d, from_{fmt}({cl.name}, d))")
        w = e.v if named else None
        ok, ext = carries(fmt, t, v)
        if not ok:
            rec.skip(f"{fmt} does not carry it")
            continue
        c.evaluate((fmt, lines))
        if out.kind != "ok":
            c.fail(f"to_{fmt}: {out!r}", *lines)
        b = call(getattr(m, f"from_{fmt}"), typ, out.v)
        if fmt == "msgpack" and b.kind != "ok" and "strict_map_key" in str(b.exc):
            rec.skip("msgpack keys")
            continue
        if b.kind != "ok" or not same(b.v, v):
            c.fail(f"from_{fmt}(to_{fmt}(v)): expected {short(v)} but it {b!r}", *lines)
        rec.event("round_trips")


def carries(fmt, t, v):
    """The raw format library carries the plain form of the value, and the model reads it back."""
    try:
        w = t.ser(v, Opts(reuse=False, sets=True))
        ext = formats.loads(fmt, formats.dumps(fmt, w))
        num = {"json": "json", "yaml": "yaml"}.get(fmt)
        return same(t.de(ext, Opts(reuse=False, num=num)), v), ext
    except (ModelError, Unknown):
        return False, None
    except Exception:
        return False, None


def shape(c, rec, r, cl, typ, w):
    """Strict classes refuse arrays of other shapes than declared."""
    fs = [f for f in cl.de_fields() if isinstance(f.ty, NpJ) and cl.wire_name(f) in w and 0 not in f.ty.shape]
    if not fs:
        return
    f = r.choice(fs)
    a = w[cl.wire_name(f)]
    bad = r.choice([a + [a[0]], [a], a[1:] if len(a) > 1 else a + a])
    d = dict(w)
    d[cl.wire_name(f)] = bad
    rec.event("wrong_shape")
    lines = (f"print(from_dict({cl.name}, {lit(d)}))",)
    out = call(serde.from_dict, typ, d)
    rec.event("rejects")
    c.evaluate(lines)
    if out.kind != "serde":
        c.fail(f"from_dict with an array of another shape than {f.ty.src()}: expected SerdeError but it {out!r}", *lines)


def direct(c, rec, r, t, v):
    typ = eval(t.src(), c.ns)
    rec.event("direct" if not t.kids() else "direct_containers")
    w = t.ser(v, Opts(reuse=False, sets=True))
    c.must(expect(t.de, w, Opts()), call(serde.from_dict, typ, w), "from_dict", f"print(from_dict({t.src()}, {lit(w)}))")
    for fmt in ("json", "msgpack"):
        m = FMT[fmt]
        ok, ext = carries(fmt, t, v)
        if not ok:
            rec.skip(f"{fmt} does not carry it")
            continue
        if fmt == "json" and formats.orjson() and any(getattr(n, "dt", "") in ("datetime64", "str_", None) for n in t.walk()):
            rec.skip("left to orjson")
            continue
        lines = (f"v = {lit(v)}", f"d = to_{fmt}(v)", f"print(d, from_{fmt}({t.src()}, d))")
        out = call(getattr(m, f"to_{fmt}"), v)
        c.evaluate((fmt, "direct", lines))
        if out.kind != "ok":
            c.fail(f"to_{fmt}: {out!r}", *lines)
        b = call(getattr(m, f"from_{fmt}"), typ, out.v)
        if b.kind != "ok" or not same(b.v, v):
            c.fail(f"from_{fmt}({t.src()}): expected {short(v)} but it {b!r}", *lines)
        rec.event("round_trips")


def skipping(r, rec, pg):
    """Fields that are left out when they hold their default."""
    src = HEADER + """
@_s.serde{opts}
class Skips:
    a: _npt.NDArray[_np.float32] = _s.field(default_factory=lambda: _np.array({d}, dtype=_np.float32){meta})
    s: _np.int32 = _s.field(default=_np.int32(3){meta})
    n: int = 0
"""
    d = r.choice([[], [1.0], [1.0, 2.0], [[1.0, 2.0], [3.0, 4.0]], [0.5] * 5])
    whole = r.random() < 0.5
    prog = Program([src.format(opts="(skip_if_default=True)" if whole else "", d=d, meta="" if whole else ", skip_if_default=True")])
    with Case(rec, prog) as c:
        Skips = c.ns["Skips"]
        for _ in range(4):
            a = r.choice([d, [], [1.0], [1.0, 2.0], [2.0, 1.0], [[1.0, 2.0], [3.0, 5.0]], [[1.0, 2.0, 3.0]]])
            s = r.choice([3, 3, 4])
            n = r.choice([0, 1])
            line = f"print(to_dict(Skips(_np.array({a}, dtype=_np.float32), _np.int32({s}), {n})))"
            want = {}
            if a != d:
                want["a"] = a
            if s != 3:
                want["s"] = s
            if n or not whole:
                want["n"] = n
            out = call(serde.to_dict, Skips(np.array(a, dtype=np.float32), np.int32(s), n))
            rec.event("skip_default")
            c.evaluate(line)
            if out.kind != "ok" or not same(out.v, want):
                c.fail(f"to_dict with skip_if_default: expected {want} but it {out!r}", line)
