"""P22: enums, literals, new types and subclasses of primitives accept exactly their values and keep apart."""
import enum

import serde

from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, expect, short
from lib.spec import (Bool, Cls, ClsT, DequeT, DictT, EnumT, Fld, Float, FrozenSetT, Int, ListT, Lit, ModelError, NewT, OptT, Opts, PrimSub, Program,
                      SetT, Str, TupleT, UnionT, Unknown, VarTupleT, lit, same)

PROP = "P22"
BUDGET = {"quick": 2500, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, field, value or data) whose written form or reading was compared"
MIN = {"evaluations": 108000, "distinct": 100000, "accepts": 59000, "rejects": 41000, "members": 19000, "foreign": 58000,
       "nested_enum": 450, "mixed_enum": 430, "aliased_enum": 440, "flag_enum": 420, "tuple_enum": 440, "enum_key": 1200,
       "literal": 3400, "newtype": 1300, "primsub": 1300, "as_text": 11000}
NAMES = ["A", "B", "C", "RED", "name_", "x", "Foo", "V0", "a_b", "A_B", "ab"]
TEXTS = ["a", "b", "A", "a b", "a-b", "a_b", "a.b", "", "_", "1", "2", "true", "True", "None", "1.5", "it's", 'say "x"', "back\\", "{x}", "é", "a_str",
         "a_str_b", "b_str", "0", "-1", "on", "off", "yes", "null", "\n", "%s", "{{x}}", "r+", "w+"]
NUMS = [0, 1, 2, 3, -1, 10, 11, 100]


def enum_type(r, rec, done, n):
    name = f"E{n}"
    k = r.randint(0, 10)
    vals = None
    if k == 0:
        base, vals = "_e.Enum", r.sample(TEXTS, 3)
    elif k == 1:
        base, vals = "_e.Enum", r.sample(NUMS, 3)
    elif k == 2:
        base, vals = r.choice(["_e.IntEnum", "_e.IntEnum", "int, _e.Enum"]), r.sample(NUMS, 3)
    elif k == 3:
        base, vals = r.choice(["_e.StrEnum", "str, _e.Enum"]), r.sample(TEXTS, 3)
    elif k == 4:
        base, vals = r.choice(["_e.IntFlag", "_e.IntFlag", "_e.Flag"]), [1, 2, 4]
        rec.event("flag_enum")
    elif k == 5:
        base, vals = "_e.Enum", r.choice([[1, "1", 2], [True, "x", 2], ["x", True, 10.5], ["foo", 10.0, True], [1.5, "1.5"], [False, 1, "a"], [2, "two", None],
                                          [None, "a"], [1.0, "one"], [0, "zero", 1.5]])
        rec.event("mixed_enum")
    elif k == 6:
        base, vals = "_e.Enum", r.choice([[(1, "a"), (2, "b")], [("a", "b"), ("a",)], [("one", "x"), ("two", "x"), ("on", "ex")], [(1, 2), (2, 1)],
                                          [(), (1,)], [("a", 1), "a"]])
        rec.event("tuple_enum")
    elif k == 7:
        base, vals = "_e.Enum", r.choice([[1.5, 2.5], [0.0, 1.0], [True, False]])
    elif k == 8:
        base, vals = "_e.Enum", r.sample(TEXTS, 2)
        rec.event("aliased_enum")
        vals = [vals[0], vals[1], vals[0]]
    else:
        simple = [e for e in done if isinstance(e, EnumT) and not e.nested and e.base in ("_e.Enum", "_e.IntEnum", "_e.StrEnum") and e.kind in ("str", "int")]
        if simple:
            inner = r.choice(simple)
            ms = [m for m, _ in inner.members]
            rec.event("nested_enum")
            e = EnumT(name, "_e.Enum", [(f"N{q}", m) for q, m in enumerate(r.sample(ms, r.randint(1, len(ms))))], nested=inner)
            e.kind, e.keyable = inner.kind, False
            return e
        base, vals = "_e.Enum", r.sample(TEXTS, 2)
    names = r.sample(NAMES, len(vals))
    e = EnumT(name, base, list(zip(names, vals)))
    return e


def literal_type(r, rec):
    rec.event("literal")
    k = r.random()
    if k < 0.45:
        return Lit(r.sample(TEXTS, r.randint(1, 4)))
    if k < 0.65:
        return Lit(r.sample(NUMS, r.randint(1, 3)))
    if k < 0.75:
        return Lit([r.choice([True, False])])
    vals = r.sample(TEXTS, 1) + r.sample(NUMS, 1)
    if r.random() < 0.3:
        vals.append(None)
    r.shuffle(vals)
    return Lit(vals)


def make(r, rec):
    decls, base = [], []
    for n in range(r.randint(2, 5)):
        e = enum_type(r, rec, decls, n)
        decls.append(e)
        base.append(e)
    for n in range(r.choice([0, 1, 2])):
        t = NewT(f"N{n}", r.choice([Int, Str, Bool, Float]))
        rec.event("newtype")
        decls.append(t)
        base.append(t)
    for n in range(r.choice([0, 1, 2])):
        t = PrimSub(f"S{n}", r.choice([Int, Str, Float]))
        rec.event("primsub")
        decls.append(t)
        base.append(t)
    for _ in range(r.randint(1, 4)):
        base.append(literal_type(r, rec))
    r.shuffle(base)
    cls = []
    for k in range(r.choice([1, 1, 2])):
        fs = []
        for n in range(r.randint(2, 6)):
            t = base[n % len(base)] if k == 0 else r.choice(base)
            fs.append(Fld(f"f{n}", wrap(r, rec, t)))
            fs[-1].core = t
        c = Cls(f"C{k}", fs, check=r.choice(["strict", "strict", "strict", "disabled"]), decorator=r.choice(["serde"] * 6 + ["plain"]))
        if r.random() < 0.15:
            c.reuse = r.choice([True, False])
        cls.append(c)
    return Program(decls + cls), cls, base


def wrap(r, rec, t):
    k = r.random()
    if k < 0.5:
        return t
    none = isinstance(t, Lit) and None in t.values or isinstance(t, EnumT) and any(v is None for _, v in t.members)
    opts = [lambda: ListT(t), lambda: DictT(Str(), t), lambda: TupleT([t, Int()]), lambda: VarTupleT(t), lambda: DequeT(t)]
    if not none:
        opts.append(lambda: OptT(t))
    if not (isinstance(t, EnumT) and t.nested):
        opts += [lambda: SetT(t), lambda: FrozenSetT(t)]
    if isinstance(t, EnumT) and t.keyable and t.base not in ("_e.IntFlag", "_e.Flag") or isinstance(t, Lit) and t.kind == "str":
        opts += [lambda: DictT(t, Int())] * 3
        rec.event("enum_key")
    return r.choice(opts)()


def values(t, ns):
    if isinstance(t, EnumT):
        out = list(t.cls.__members__.values())
        if t.base in ("_e.IntFlag", "_e.Flag"):
            out += [t.cls(3), t.cls(0), t.cls(7)]
        return out
    if isinstance(t, Lit):
        return list(t.values)
    return None


def foreign(r, base, ns):
    """Values of the other types and ones that look like them."""
    out = [None, True, False, 0, 1, 5, -3, 1.0, 2.5, "", "nope", "NOPE", [], {}, [1], ["a"], "x", 12345]
    for t in base:
        vs = values(t, ns)
        if vs:
            for v in vs:
                while isinstance(v, enum.Enum):
                    out.append(v.name)
                    v = v.value
                out.append(v)
                if isinstance(v, str):
                    out += [v.upper(), v + " ", v.replace("-", "_"), v.replace(" ", "_")]
                elif not isinstance(v, (tuple, type(None))):
                    out.append(str(v))
                elif isinstance(v, tuple):
                    out += [list(v), list(v) + [1], list(v)[:-1], "".join(map(str, v))]
    return out


def put(t, core, w, r):
    """Data for a field of type t in which w stands for the core type; None where it cannot."""
    if t is core:
        return w
    if isinstance(t, OptT):
        return w
    if isinstance(t, DictT):
        if t.k is core:
            return {w: 1}
        return {"k": w}
    if isinstance(t, TupleT):
        return [w, 1]
    return [w]


def case(r, rec, i, cfg):
    prog, cls, base = make(r, rec)
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        pool = foreign(r, base, c.ns)
        for cl in cls:
            t = ClsT(cl)
            v = c.value(t, g)
            w0 = expect(t.ser, v, Opts(named=True, reuse=False, sets=True))
            if w0.kind != "ok":
                rec.skip("form not determined")
                continue
            for f in cl.fields:
                field(c, rec, r, cl, f, v, w0.v, pool, cls)


def held(c, rec, r, cl, f, v, core, pool):
    """What an object holds instead of a member is not written."""
    for x in r.sample(pool, min(len(pool), 2)):
        try:
            core.cls(x)
            continue
        except (ValueError, TypeError):
            pass
        obj = c.ns[cl.name](**{q.name: getattr(v, q.name) for q in cl.fields})
        val = [x] if isinstance(f.ty, ListT) else {"k": x} if isinstance(f.ty, DictT) else x
        object.__setattr__(obj, f.name, val)
        rec.event("held")
        fn = r.choice([serde.to_dict, serde.to_tuple])
        out = call(fn, obj)
        c.evaluate((lit(obj) if not isinstance(x, dict) else repr(x), f.name, "held"))
        if out.kind != "serde":
            c.fail(f"{fn.__name__}: {f.name} holds {short(val)} which is not of {core.name}, but it {out!r}",
                   f"v = {lit(v)}", f"object.__setattr__(v, {f.name!r}, {lit(val)})", f"print({fn.__name__}(v))")


def field(c, rec, r, cl, f, v, w0, pool, cls):
    core, t = f.core, ClsT(cl)
    py = c.ns[cl.name]
    mine = values(core, c.ns)
    if mine is None:
        mine = [core.gen(Gen(r, c.ns)) for _ in range(3)]
    if isinstance(core, EnumT) and (f.ty is core or isinstance(f.ty, ListT) or isinstance(f.ty, DictT) and f.ty.v is core):
        held(c, rec, r, cl, f, v, core, pool)
    for x in mine if len(mine) < 5 else r.sample(mine, 4):
        rec.event("members")
        val = put(f.ty, core, x, r)
        if isinstance(f.ty, (SetT,)):
            val = {x}
        if isinstance(f.ty, FrozenSetT):
            val = frozenset([x])
        if isinstance(f.ty, (TupleT, VarTupleT)):
            val = tuple(val)
        if isinstance(f.ty, DequeT):
            import collections
            val = collections.deque(val)
        obj = py(**{**{q.name: getattr(v, q.name) for q in cl.fields}, f.name: val})
        ln = f"v = {lit(obj)}"
        named = r.random() < 0.7
        fn, fr = (serde.to_dict, serde.from_dict) if named else (serde.to_tuple, serde.from_tuple)
        kw = {}
        if r.random() < 0.3:
            kw["reuse_instances"] = r.choice([True, False])
        c.must(expect(t.ser, obj, Opts(named=named, reuse=kw.get("reuse_instances"))), call(fn, obj, **kw), fn.__name__, ln, f"print({fn.__name__}(v, **{kw}))")
        e = expect(t.ser, obj, Opts(named=named, reuse=False, sets=True))
        if e.kind != "ok":
            continue
        exp = expect(t.de, e.v, Opts(named=named))
        out = call(fr, py, e.v)
        c.must(exp, out, fr.__name__, f"d = {lit(e.v)}", f"print({fr.__name__}({cl.name}, d))")
        if out.kind == "ok" and isinstance(x, enum.Enum) and f.ty is core and same(out.v, obj) and getattr(out.v, f.name) is not x and x.name:
            c.fail("an equal but different member came back", ln)
        # documents; where keys become text the very member has to come back all the same
        fmt = r.choice(["json", "yaml", "msgpack", "pickle", "toml"])
        if exp.kind == "ok":
            d = call(getattr(FMT[fmt], f"to_{fmt}"), obj)
            try:
                doc = formats.dumps(fmt, e.v)
                ext = formats.loads(fmt, doc)
            except Exception:
                continue
            if not same(expect(t.de, ext, formats.de_opts(fmt)).v, exp.v):
                continue
            rec.event("as_text")
            if d.kind != "ok":
                c.fail(f"to_{fmt} {d!r}", ln, f"print(to_{fmt}(v))")
            c.must(exp, call(getattr(FMT[fmt], f"from_{fmt}"), py, d.v), f"from_{fmt}", f"d = {d.v!r}", f"print(from_{fmt}({cl.name}, d))")
    for x in r.sample(pool, min(len(pool), 8)):
        rec.event("foreign")
        if isinstance(f.ty, DictT) and f.ty.k is core:
            if isinstance(x, (list, dict)):
                continue
        named = r.random() < 0.8
        w = dict(w0)
        w[f.name] = put(f.ty, core, x, r)
        fr = serde.from_dict if named else serde.from_tuple
        if not named:
            w = tuple(w.values())
        exp = expect(t.de, w, Opts(named=named))
        out = call(fr, py, w)
        c.must(exp, out, fr.__name__, f"d = {lit(w)}", f"print({fr.__name__}({cl.name}, d))")
        if exp.kind == "unknown" and out.kind == "ok" and isinstance(core, EnumT):
            # whatever it made of it must be a member
            got = getattr(out.v, f.name)
            flat = [got] if f.ty is core or isinstance(f.ty, OptT) else list(got.values()) if isinstance(f.ty, DictT) and f.ty.k is not core else list(got)[:1]
            for m in flat:
                if m is not None and not isinstance(m, core.cls):
                    c.fail(f"{fr.__name__}: {short(m)} is no member of {core.name}", f"d = {lit(w)}", f"print({fr.__name__}({cl.name}, d))")
