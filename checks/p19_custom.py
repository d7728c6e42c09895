"""P19: field-level, class-level, legacy and global (de)serializers: precedence, reach and number of calls."""
import collections
import fractions

import serde
from plum import dispatch
from typing import Any, Type

from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (AnyT, Bool, ClsT, CounterT, DateT, DictT, DefaultDictT, DequeT, EnumT, Float, HEADER, Int, Lit, ListT, MISSING, ModelError, NewT, NoneT, OptT, Opts, SetT,
                      Str, StrSer, TupleT, Ty, UnionT, Unknown, VarTupleT, lit, same)
from lib import spec

PROP = "P19"
BUDGET = {"quick": 2600, "thorough": 70000}
CHUNK = 50
RULE = "distinct (program with custom functions, operation) whose result and recorded calls of the custom functions were compared"
MIN = {"evaluations": 16000, "distinct": 16000, "field_level": 1000, "class_level": 540, "legacy": 520, "global": 2800, "markers": 72,
       "calls_compared": 11000, "rejects": 1400}

LOG = collections.Counter()


class Money:
    """A type the library does not know."""

    def __init__(self, cents):
        self.cents = cents

    def __eq__(self, o):
        return type(o) is Money and o.cents == self.cents

    def __hash__(self):
        return hash(self.cents)

    def __repr__(self):
        return f"Money({self.cents})"


NS = {"Money": Money, "Fraction": fractions.Fraction}
exec(HEADER, NS)


def enc(tag, v, count=True):
    if count:
        LOG["se", tag, lit(v)] += 1
    return f"{tag}:{lit(v)}"


def dec(tag, w, mod=None, count=True):
    if not isinstance(w, str) or not w.startswith(tag + ":"):
        raise ValueError(f"not written by {tag}: {w!r}")
    if count:
        LOG["de", tag, w] += 1
    ns = dict(NS)
    if mod:
        ns.update(vars(spec.sys.modules[mod]))
    return eval(w[len(tag) + 1:], ns)


class GSer1:
    @dispatch
    def serialize(self, value: Money) -> Any:
        return enc("G1", value)

    @dispatch
    def serialize(self, value: NS["_dec"].Decimal) -> Any:
        return enc("G1", value)

    @dispatch
    def serialize(self, value: NS["_dt"].date) -> Any:  # not for datetime
        return enc("G1", value)

    @dispatch
    def serialize(self, value: fractions.Fraction) -> Any:
        return enc("G1", value)


class GSer2:
    @dispatch
    def serialize(self, value: Money) -> Any:
        return enc("G2", value)

    @dispatch
    def serialize(self, value: fractions.Fraction) -> Any:
        return enc("G2", value)


class GDe1:
    @dispatch
    def deserialize(self, cls: Type[Money], value: Any) -> Any:
        return dec("G1", value)

    @dispatch
    def deserialize(self, cls: Type[NS["_dec"].Decimal], value: Any) -> Any:
        return dec("G1", value)

    @dispatch
    def deserialize(self, cls: Type[NS["_dt"].date], value: Any) -> Any:
        return dec("G1", value)

    @dispatch
    def deserialize(self, cls: Type[fractions.Fraction], value: Any) -> Any:
        return dec("G1", value)


class GDe2:
    @dispatch
    def deserialize(self, cls: Type[Money], value: Any) -> Any:
        return dec("G2", value)

    @dispatch
    def deserialize(self, cls: Type[fractions.Fraction], value: Any) -> Any:
        return dec("G2", value)


GLOBAL = {"Money": "G2", "_fr.Fraction": "G2", "_dec.Decimal": "G1", "_dt.date": "G1"}


def setup(cfg):
    serde.add_serializer(GSer1())
    serde.add_serializer(GSer2())
    serde.add_deserializer(GDe1())
    serde.add_deserializer(GDe2())


class Foreign(Ty):
    """A type only custom functions can handle."""
    hashable = True
    kind = "str"

    def __init__(self, name):
        self.name = name

    def src(self):
        return self.name

    def gen(self, g):
        n = g.r.randint(-9, 999)
        return Money(n) if self.name == "Money" else fractions.Fraction(n, g.r.randint(1, 9))

    def isa(self, v):
        return "yes" if isinstance(v, Money if self.name == "Money" else fractions.Fraction) else "no"


class CustomT(Ty):
    """A type whose values are handled by a custom function: its tag per direction, or None for the built-in behaviour."""

    def __init__(self, inner, se, de):
        self.inner, self.se, self.de_tag = inner, se, de
        self.hashable, self.kind = inner.hashable, inner.kind
        self.keyable = True

    def src(self):
        return self.inner.src()

    def kids(self):
        return []

    def gen(self, g):
        return self.inner.gen(g)

    def isa(self, v):
        return self.inner.isa(v)

    def ser(self, v, o):
        t = self.se if not READ[0] else self.de_tag
        return enc(t, v, not READ[0]) if t else self.inner.ser(v, o)

    def de(self, w, o):
        if not self.de_tag:
            return self.inner.de(w, o)
        return de_custom(self.de_tag, w)


READ = [False]
MOD = [None]


def de_custom(tag, w):
    try:
        return dec(tag, w, MOD[0])
    except ValueError as e:
        raise ModelError(str(e)) from None


def read_form(node, v, o):
    """The data from which `v` is read (differs from the written form if only one direction is customized)."""
    READ[0] = True
    try:
        return node.ser(v, o)
    finally:
        READ[0] = False


def govern(t, tags):
    """The type with the nodes handled by custom functions replaced.  tags: source of type -> (se, de)."""
    s = t.src()
    if s in tags:
        return CustomT(t, *tags[s])
    if isinstance(t, NewT):
        return t
    for k, v in list(vars(t).items()):
        if isinstance(v, Ty) and k != "nested":
            setattr(t, k, govern(v, tags))
        elif isinstance(v, list) and v and all(isinstance(x, Ty) for x in v):
            setattr(t, k, [govern(x, tags) for x in v])
    return t


def field_se(tag):
    def fn(v):
        return enc(tag, v, not READ[0])
    return fn


LEGACY = {}


HEAD = """
import fractions as _fr
import serde
from plum import dispatch
from typing import Any, Type
from checks.p19_custom import Money, enc, dec, field_enc, field_dec, legacy_se, legacy_de
"""


def field_enc(tag):
    return lambda v: enc(tag, v)


def field_dec(tag, mod):
    return lambda w: dec(tag, w, mod)


def legacy_se(tag, types):
    def fn(cls, o):
        if cls in types:
            return enc(tag, o)
        raise serde.SerdeSkip()
    return fn


def legacy_de(tag, types, mod):
    def fn(cls, o):
        if cls in types:
            return dec(tag, o, mod)
        raise serde.SerdeSkip()
    return fn


CLASS_TYPES = [Int, Str, Float, Bool, lambda: StrSer("_dec.Decimal"), lambda: StrSer("_pl.Path"), lambda: StrSer("_u.UUID"),
               lambda: DateT("_dt.date"), lambda: DateT("_dt.datetime"), lambda: Foreign("Money"), lambda: Foreign("_fr.Fraction")]


class CPG(PG):
    def scalar(self, keyable=False, hashable=False):
        if self.r.random() < 0.25:
            return self.r.choice([Foreign("Money"), Foreign("Money"), Foreign("_fr.Fraction"), StrSer("_dec.Decimal")])
        return super().scalar(keyable, hashable)

    def ddval(self, d):
        return self.r.choice([Int, Str])() if self.r.random() < 0.5 else ListT(self.ty(d))


MARKABLE = (Int, Str, Float, Bool, StrSer, DateT, ListT, DictT, TupleT, VarTupleT, OptT, EnumT, DequeT, SetT)


def nodes(t):
    yield from t.walk()


def customize(r, rec, prog):
    """Choose custom functions for the classes; returns False if the program is out of domain."""
    decls = []
    for n, d in enumerate(prog.decls):
        c = d if d in cls_nodes(prog) else None
        if c is None:
            # the values of a custom type within a type alias
            if hasattr(d, "el"):
                d.el = govern(d.el, {k: (v, v) for k, v in GLOBAL.items()})
            decls.append(d)
            continue
        tags = {k: (v, v) for k, v in GLOBAL.items()}
        extra = []
        if c.decorator != "plain":
            taken = [t.src() for f in c.fields for t in nodes(f.ty)]
            if r.random() < 0.5:
                tag = f"S{n}"
                ts = r.sample(CLASS_TYPES, r.choice([1, 2, 3, 4]))
                ts = [t() for t in ts]
                cands = [t for f in c.fields for t in nodes(f.ty) if isinstance(t, ClsT) and not t.quoted]
                inside = {id(e) for f in c.fields for t in nodes(f.ty) if isinstance(t, UnionT) for e in t.els}
                cands = [t for t in cands if not any(e.src() == t.src() for f in c.fields for x in nodes(f.ty)
                                                     if isinstance(x, UnionT) for e in x.els)]
                if cands and r.random() < 0.4:
                    ts.append(r.choice(cands))
                seen = {}
                for t in ts:
                    seen[t.src()] = t
                both = r.random()
                se, de = both < 0.85, both < 0.7 or both >= 0.85
                body = ""
                if se:
                    decls.append(f"class {tag}:\n" + "".join(
                        f"    @dispatch\n    def serialize(self, value: {s}) -> Any:\n        return enc({tag!r}, value)\n\n" for s in seen))
                    extra.append(f"class_serializer={tag}()")
                if de:
                    decls.append(f"class {tag}D:\n" + "".join(
                        f"    @dispatch\n    def deserialize(self, cls: Type[{s}], value: Any) -> Any:\n"
                        f"        return dec({tag!r}, value, __name__)\n\n" for s in seen))
                    extra.append(f"class_deserializer={tag}D()")
                for s in seen:
                    old = tags.get(s, (None, None))
                    tags[s] = (tag if se else old[0], tag if de else old[1])
                    if s in taken:
                        rec.event("class_level")
            leg = []
            if r.random() < 0.3:
                tag = f"L{n}"
                for f in c.fields:
                    s = f.ty.src()
                    if isinstance(f.ty, (AnyT, UnionT, NoneT, OptT)) or any(
                            getattr(t, "inner", t).src() == s for q in c.fields for t in nodes(q.ty) if t is not q.ty or isinstance(t, NewT)) or s in leg or has_alias(f.ty):
                        continue
                    if s not in tags and r.random() < 0.6:
                        leg.append(s)
                ns = "[" + ", ".join(leg) + "]"
                extra.append(f"serializer=legacy_se({tag!r}, {ns}), deserializer=legacy_de({tag!r}, {ns}, __name__)")
                for s in leg:
                    rec.event("legacy")
        for f in c.fields:
            f.se_form = f.ty
            s = f.ty.src()
            if c.decorator != "plain" and s in leg:
                f.ty = CustomT(f.ty, f"L{n}", f"L{n}")
                if r.random() < 0.3 and s not in tags and not f.ty.inner.kids():
                    rec.event("markers")
                    f.ty = f.ty.inner
                    f.serializer = ("serde.default_serializer", None)
                    f.deserializer = ("serde.default_deserializer", None)
                    f.marked = True
            elif (c.decorator != "plain" and not c.transparent and r.random() < 0.2 and all(
                    isinstance(t, MARKABLE) for t in nodes(f.ty)) and not (leg and {t.src() for t in nodes(f.ty)} & set(leg))):
                # the marker holds for all parts of the field
                rec.event("marked_parts")
                f.serializer = ("serde.default_serializer", None)
                f.deserializer = ("serde.default_deserializer", None)
                f.marked = True
            elif c.decorator != "plain" and r.random() < 0.25 and not c.transparent:
                k = r.random()
                se, de = k < 0.75, k < 0.5 or k >= 0.75
                tag = f"F{n}{f.name}"
                f.ty = govern(f.ty, tags)
                rec.event("field_level")
                f.se_tag, f.de_tag = tag if se else None, tag if de else None
                src = (f"field_enc({tag!r})" if se else None, f"field_dec({tag!r}, __name__)" if de else None)
                f.serializer = (src[0], field_se(tag)) if se else None
                f.deserializer = (src[1], lambda w, tag=tag: de_custom(tag, w)) if de else None
                f.custom = tag
            else:
                f.ty = govern(f.ty, tags)
        c.decor_extra = ", ".join([x for x in [c.decor_extra] + extra if x])
        decls.append(c)
    prog.decls = decls


def has_alias(t):
    return any(type(x).__name__ in ("Alias", "PrimSub", "NewT") for x in t.walk())


class FieldView:
    """While reading forms are computed, fields customized in one direction only are written accordingly."""

    def __init__(self, prog):
        self.prog = prog

    def __enter__(self):
        self.saved = []
        for c in cls_nodes(self.prog):
            for f in c.fields:
                self.saved.append((f, f.serializer))
                if getattr(f, "custom", None):
                    f.serializer = ("", field_se(f.custom)) if f.deserializer else None
        READ[0] = True

    def __exit__(self, *a):
        READ[0] = False
        for f, s in self.saved:
            f.serializer = s


def taken_log():
    out = collections.Counter(LOG)
    LOG.clear()
    return out


def case(r, rec, i, cfg):
    pg = CPG(r, depth=r.choice([1, 2, 2, 3]), inherit=0.0, max_fields=4, ncls=(1, 3), bare=False, counter=False, both=0.1, plain=0.2,
             future=0.0, frozen=0.1, rename=0.2, defaults=0.3, newtypes=True, alias=0.1, any=True)
    prog = pg.program()
    prog.header = HEAD
    customize(r, rec, prog)
    with Case(rec, prog) as c:
        # markers: the built-in behaviour
        for cl in cls_nodes(prog):
            for f in cl.fields:
                if getattr(f, "marked", False):
                    f.serializer = f.deserializer = None
        MOD[0] = prog.module.__name__
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.2)
        unions = any(isinstance(t, UnionT) for d in cls_nodes(prog) for f in d.fields for t in f.ty.walk()) or "_t.Union" in prog.source()
        for cl in cls_nodes(prog)[::-1][:2]:
            node = ClsT(cl)
            for _ in range(2):
                v = c.value(node, g)
                write(c, rec, r, node, v)
                read(c, rec, r, prog, node, v, unions)
        for _ in range(2):
            direct(c, rec, r, g, prog)
        taken_log()


def judged(c, rec, exp, elog, out, olog, what, *lines, compare=True):
    det = c.must(exp, out, what, *lines)
    if det and exp.kind == "ok" and compare:
        rec.event("calls_compared")
        if elog != olog:
            c.fail(f"{what}: the custom functions were called {dict(olog - elog)} too often, {dict(elog - olog)} not often enough", *lines)


def write(c, rec, r, node, v):
    named = r.random() < 0.7
    kw = {}
    if r.random() < 0.3:
        kw["reuse_instances"] = r.choice([True, False])
    if r.random() < 0.3:
        kw["convert_sets"] = r.choice([True, False])
    fn = serde.to_dict if named else serde.to_tuple
    taken_log()
    exp = expect(node.ser, v, Opts(named=named, reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets")))
    elog = taken_log()
    out = call(fn, v, **kw)
    judged(c, rec, exp, elog, out, taken_log(), fn.__name__, f"print({fn.__name__}({lit(v)}, **{kw}))")


def read(c, rec, r, prog, node, v, unions):
    named = r.random() < 0.7
    with FieldView(prog):
        exp = expect(node.ser, v, Opts(named=named, reuse=False, sets=True))
    if exp.kind != "ok":
        rec.skip("form not determined")
        return
    data = exp.v
    if r.random() < 0.3:
        data = spoil(r, data)
    fn = serde.from_dict if named else serde.from_tuple
    taken_log()
    exp = expect(node.de, data, Opts(named=named))
    elog = taken_log()
    out = call(fn, eval(node.src(), c.ns), data)
    judged(c, rec, exp, elog, out, taken_log(), fn.__name__, f"d = {lit(data)}", f"print({fn.__name__}({node.src()}, d))", compare=not unions)
    if named and r.random() < 0.4:
        fmt = r.choice(["json", "msgpack", "yaml"])
        try:
            doc = formats.dumps(fmt, data)
            ext = formats.loads(fmt, doc)
        except Exception:
            return
        taken_log()
        exp = expect(node.de, ext, formats.de_opts(fmt))
        elog = taken_log()
        fr = f"from_{fmt}"
        out = call(getattr(FMT[fmt], fr), eval(node.src(), c.ns), doc)
        judged(c, rec, exp, elog, out, taken_log(), fr, f"print({fr}({node.src()}, {lit(doc)}))", compare=not unions)


def spoil(r, w):
    """Replace one customized string by one another function, or none, wrote."""
    spots = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, y in x.items():
                walk(y, path + (k,))
        elif isinstance(x, (list, tuple)):
            for n, y in enumerate(x):
                walk(y, path + (n,))
        elif isinstance(x, str) and ":" in x and x[:1] in "SLFG":
            spots.append((path, x))
    walk(w, ())
    if not spots:
        return w
    path, x = r.choice(spots)
    new = r.choice([x.split(":", 1)[1], "S9:" + x.split(":", 1)[1], "G1:" + x.split(":", 1)[1], "", None, 5])
    from checks.p09_deny import at
    return at(w, path, lambda _: new)


def direct(c, rec, r, g, prog):
    """Values governed by global functions passed directly, or within containers."""
    t = r.choice([Foreign("Money"), Foreign("_fr.Fraction"), StrSer("_dec.Decimal"), DateT("_dt.date"), DateT("_dt.datetime"), DateT("_dt.datetime")])
    if t.src() in GLOBAL:
        t = CustomT(t, GLOBAL[t.src()], GLOBAL[t.src()])
    else:
        rec.event("subclass")   # of a type with global functions
    k = r.random()
    cls = cls_nodes(prog)[-1]
    node = t if k < 0.25 else r.choice([lambda: ListT(t), lambda: DictT(Str(), t), lambda: TupleT([t, Int()]), lambda: VarTupleT(t),
                                        lambda: DictT(Str(), ListT(t)), lambda: OptT(t), lambda: TupleT([ClsT(cls), t]),
                                        lambda: UnionT([t, Int()]), lambda: UnionT([ListT(t), t])])()
    v = c.value(node, g)
    rec.event("global")
    taken_log()
    kw = {"c": eval(node.src(), c.ns)} if isinstance(node, UnionT) else {}
    reuse = None if isinstance(t, CustomT) and r.random() < 0.5 else r.choice([True, False])
    if reuse is not None:
        kw["reuse_instances"] = reuse
    exp = expect(node.ser, v, Opts(reuse=reuse))
    elog = taken_log()
    out = call(serde.to_dict, v, **kw)
    ks = (f", c={node.src()}" if "c" in kw else "") + (f", reuse_instances={reuse}" if reuse is not None else "")
    judged(c, rec, exp, elog, out, taken_log(), "to_dict", f"print(to_dict({lit(v)}{ks}))")
    with FieldView(prog):
        exp = expect(node.ser, v, Opts(reuse=False, sets=True))
    if exp.kind != "ok":
        return
    data = exp.v if r.random() < 0.8 else spoil(r, exp.v)
    taken_log()
    exp = expect(node.de, data, Opts())
    elog = taken_log()
    out = call(serde.from_dict, eval(node.src(), c.ns), data)
    judged(c, rec, exp, elog, out, taken_log(), "from_dict", f"print(from_dict({node.src()}, {lit(data)}))",
           compare=not isinstance(node, UnionT) and not isinstance(node, TupleT))
