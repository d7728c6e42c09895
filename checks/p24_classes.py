"""P24: every class is (de)serialized with its own fields and options in whatever order classes are used; plain ones are left alone."""
import collections
import copy
import dataclasses
import inspect
import pickle
import re

import serde

from checks.p30_names import Twin, sort_out
from lib import formats
from lib.gen import CASES, Gen, PG, TAGS
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import (Cls, ClsT, DictT, Fld, Int, ListT, ModelError, OptT, Opts, Program, Str, TupleT, UnionT, Unknown, lit, same, tag_src)

PROP = "P24"
BUDGET = {"quick": 3000, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, order of use, operation) compared, or (plain class, history of direct uses) whose observable state was compared"
MIN = {"evaluations": 19000, "distinct": 19000, "accepts": 16000, "rejects": 1000, "late": 450, "derived": 1700, "one_direction": 190,
       "plain_derived": 410, "in_order": 300, "reverse_order": 270, "observed": 1600, "held": 350, "ill_typed_built": 6400,
       "diamond": 130}


class Late(Cls):
    """Decorated by a statement after all declarations."""

    def decl(self):
        deco, self.decorator = self.decorator, "plain"
        try:
            return super().decl()
        finally:
            self.decorator = deco

    def statement(self):
        return f"_s.serde({self.decor_args()})({self.name})\n" if self.decor_args() else f"_s.serde({self.name})\n"


class OneWay(Cls):
    """Decorated for one direction only; the other one is made on demand, with default options."""
    side = "ser"

    def decl(self):
        out = super().decl()
        fn = "serialize" if self.side == "ser" else "deserialize"
        a = self.decor_args()
        lines = out.split("\n")
        lines[0] = f"@_s.{fn}({a})" if a else f"@_s.{fn}"
        if "@_d.dataclass" not in out:
            lines.insert(1, "@_d.dataclass")
        return "\n".join(lines)

    def other(self):
        t = Cls(self.name, self.fields, bases=self.bases, decorator="plain", frozen=self.frozen, kw_only=self.kw_only)
        t.mod, t.family = self.mod, self.family
        return t

    def default_reuse(self):
        return False

    def ser(self, v, o, args=()):
        return super().ser(v, o, args) if self.side == "ser" else self.other().ser(v, o, args)

    def de(self, w, o, args=()):
        return super().de(w, o, args) if self.side == "de" else self.other().de(w, o, args)


class InhPG(PG):
    late = False

    def cls(self, fields=None, **kw):
        c = super().cls(fields, **kw)
        if c.decorator == "serde" and not c.transparent:
            if self.late:
                c.__class__ = Late
            elif self.r.random() < 0.15:
                c.__class__ = OneWay
                c.side = self.r.choice(["ser", "de"])
                c.check = "disabled"
                c.deny = False
                c.reuse = c.reuse if c.side == "ser" else None
                c.explicit_dc = False
        return c


def refers(a, b):
    """Class a has fields of class b (through other classes)."""
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for f in x.all_fields():
            for t in f.ty.walk():
                if isinstance(t, ClsT) and id(t.cls) not in seen:
                    seen.add(id(t.cls))
                    todo.append(t.cls)
    return id(b) in seen


def make(r, rec):
    pg = InhPG(r, depth=r.choice([0, 1, 1, 2]), inherit=0.6, override=0.4, plain=r.choice([0.0, 0.25, 0.5]), ncls=(2, 6), max_fields=3, transparent=0.0,
               rename_all=0.4, rename=0.15, alias=0.15, deny=0.25, class_skip=0.2, reuse_default=0.25, sets_default=0.25, both=0.15, slots=0.0,
               defaults=0.4, kw_only=0.1, explicit_dc=0.3)
    pg.late = r.random() < 0.5
    prog = pg.program()
    cs = cls_nodes(prog)
    late = [c for c in cs if isinstance(c, Late)]
    if r.random() < 0.35:
        # several classes of one name, some derived from each other
        named = {id(e.cls) for c in cs for f in c.fields for t in f.ty.walk() if isinstance(t, UnionT) for e in t.els if isinstance(e, ClsT)}
        for c in cs:
            if type(c) is Cls and id(c) not in named and not c.tvars and r.random() < 0.7:
                c.__class__ = Twin
                rec.event("same_name")
                if any(type(getattr(b, "cls", b)) is Twin for b in c.bases):
                    rec.event("derived_same_name")
        sort_out(cs)
    # a plain class that refers to a late one is prepared when it is first used, which is after all statements
    if late:
        rec.event("late")
        r.shuffle(late)
        done = []
        while late:
            # the classes an object holds are decorated before the class of the object
            free = [c for c in late if not any(refers(c, d) and d is not c for d in late)] or late
            c = r.choice(free)
            late.remove(c)
            done.append(c)
        prog.decls += [c.statement() for c in done]
    for c in cs:
        if isinstance(c, OneWay):
            rec.event("one_direction")
        if c.bases:
            rec.event("derived")
            if c.decorator == "plain":
                rec.event("plain_derived")
    return prog


def case(r, rec, i, cfg):
    if i % 3 == 0:
        plain(r, rec)
        return
    if i % 12 == 1:
        diamond(r, rec)
        return
    prog = make(r, rec)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.3)
        cs = cls_nodes(prog)
        todo = []
        for cl in cs:
            for _ in range(2):
                try:
                    todo.append((cl, c.value(ClsT(cl), g)))
                except Unknown:
                    rec.skip("value")
        k = r.random()
        if k < 0.3:
            rec.event("in_order")
        elif k < 0.6:
            todo.reverse()
            rec.event("reverse_order")
        else:
            r.shuffle(todo)
        done = []
        for cl, v in todo:
            use(c, rec, r, cl, v, done)


def use(c, rec, r, cl, v, done):
    t = ClsT(cl)
    py = c.ns[cl.name]
    ops = ["write", "read"]
    if r.random() < 0.5:
        ops.reverse()
    for op in ops:
        named = r.random() < 0.75
        if op == "write":
            kw = {}
            if r.random() < 0.2:
                kw["reuse_instances"] = r.choice([True, False])
            if r.random() < 0.2:
                kw["convert_sets"] = r.choice([True, False])
            fn = serde.to_dict if named else serde.to_tuple
            e = expect(t.ser, v, Opts(named=named, reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets")))
            line = f"print({fn.__name__}({lit(v)}, **{kw}))"
            c.lines = list(done)
            c.must(e, call(fn, v, **kw), fn.__name__, line, order=True)
        else:
            side = ReadForm(cl)
            e = expect(side.ser, v, Opts(named=named, reuse=False, sets=True))
            if e.kind != "ok":
                rec.skip("form not determined")
                continue
            w = e.v
            if named and isinstance(w, dict) and r.random() < 0.35:
                w = dict(w)
                k = r.random()
                if k < 0.35 and w:
                    w.pop(r.choice(list(w)))
                elif k < 0.8:
                    w["unheard_of"] = 1
                elif w:
                    a = r.choice(list(w))
                    w[a.upper() + "_"] = w.pop(a)
            fn = serde.from_dict if named else serde.from_tuple
            line = f"print({fn.__name__}({cl.name}, {lit(w)}))"
            c.lines = list(done)
            c.must(expect(t.de, w, Opts(named=named)), call(fn, py, w), fn.__name__, line)
        done.append(line)
    if len(done) > 24:
        del done[:-24]


class ReadForm:
    """The form a class is read from, which is the one it is written in unless only one direction is decorated."""

    def __init__(self, cl):
        self.cl = cl

    def ser(self, v, o):
        if any(isinstance(d, OneWay) for d in self.cl.family):
            return flip(self.cl, v, o)
        return self.cl.ser(v, o)


def flip(cl, v, o):
    ways = [d for d in cl.family if isinstance(d, OneWay)]
    for d in ways:
        d.side = "de" if d.side == "ser" else "ser"
    try:
        return cl.for_value(v).ser(v, o)
    finally:
        for d in ways:
            d.side = "de" if d.side == "ser" else "ser"


def diamond(r, rec):
    """Several bases."""
    names = ["a", "bb", "c_c", "dDd", "e", "f_g", "h"]
    r.shuffle(names)

    def opts(kw=True):
        return dict(rename_all=r.choice([None, None] + CASES), kw_only=kw, deny=r.random() < 0.2, decorator=r.choice(["serde", "serde", "both", "plain"]))

    def fld(n):
        f = Fld(n, r.choice([Int, Str, lambda: ListT(Int()), lambda: OptT(Int())])())
        if r.random() < 0.3 and isinstance(f.ty, Int):
            f.default = 5
        return f

    def cls(name, fields, bases=()):
        o = opts()
        if o["decorator"] == "plain":
            o.update(rename_all=None, deny=False)
        return Cls(name, fields, bases=list(bases), **o)

    top = cls("Top", [fld(names[0])])

    def again():
        f = Fld(names[0], top.fields[0].ty)
        if isinstance(f.ty, Int):
            f.default = 7
        return [f] if r.random() < 0.4 and f.ty is not None else []

    left = cls("Left", [fld(names[1])] + again(), [top])
    right = cls("Right", [fld(names[2])] + again(), [top])
    mixin = cls("Mixin", [fld(names[3])])
    bottom = cls("Bottom", [fld(names[4])] if r.random() < 0.7 else [], r.choice([[left, right], [left, mixin], [mixin, left], [right, left]]))
    if not bottom.fields:
        bottom.explicit_dc = True
    prog = Program([top, left, right, mixin, bottom])
    # dataclass order of fields: bases in reverse method resolution order
    with Case(rec, prog) as c:
        py = c.ns["Bottom"]
        order = [f.name for f in dataclasses.fields(py)]
        by = {}
        held = {d.name: d.all_fields() for d in (top, left, right, mixin)}
        held["Bottom"] = bottom.fields
        for k in reversed(py.__mro__):
            for d in prog.decls:
                if isinstance(d, Cls) and d.py is k:
                    for f in held[d.name]:
                        by[f.name] = f
        bottom.all_fields = lambda: [by[n] for n in order]
        rec.event("diamond")
        g = Gen(r, c.ns)
        todo = [(d, c.value(ClsT(d), g)) for d in prog.decls for _ in range(2)]
        r.shuffle(todo)
        done = []
        for d, v in todo:
            use(c, rec, r, d, v, done)


# -- plain dataclasses passed directly ------------------------------------------------------
PLAIN = '''
{deco}
class Inner:
    n: int
    m: _t.Any = None

{deco}
class P:
{fields}
    K: _t.ClassVar[int] = 3
{body}

{deco2}
class Sub(P):
    extra: int = 1

class Raw(P):
    pass
'''
HOLD = '''
@_s.{side}(type_check=_s.disabled)
@_d.dataclass
class Hold:
    r: Raw
    b: P
'''
FIELDS = ["x: int", "s: str", "l: list[int]", "i: Inner", "o: _t.Optional[Inner]", "d: dict[str, Inner]", "f: float", "u: _t.Union[Inner, int]",
          "t: tuple[int, str]", "li: list[Inner]"]
BODIES = ["", "    def double(self):\n        return 2\n", "    def __post_init__(self):\n        LOG.append(1)\n",
          "    @property\n    def prop(self):\n        return 'p'\n", "    def __repr__(self):\n        return 'P!'\n",
          "    def __init_subclass__(cls):\n        LOG.append(cls.__name__)\n"]
GOOD = {"x": "1", "s": "'a'", "l": "[1, 2]", "i": "Inner(n=1)", "o": "None", "d": "{'k': Inner(n=2)}", "f": "1.5", "u": "Inner(n=3)", "t": "(1, 'a')", "li": "[Inner(n=1)]"}
BAD = {"x": "'no'", "s": "5", "l": "[None]", "i": "7", "o": "'x'", "d": "[1]", "f": "'f'", "u": "None", "t": "3", "li": "{}"}
WIRE = {"x": 1, "s": "a", "l": [1, 2], "i": {"n": 1, "m": None}, "o": None, "d": {"k": {"n": 2, "m": None}}, "f": 1.5, "u": {"Inner": {"n": 3, "m": None}}, "t": [1, "a"],
        "li": [{"n": 1, "m": None}]}

TUPLES = {"i": (1, None), "d": {"k": (2, None)}, "li": [(1, None)]}


def state(ns, bad):
    """What users of the classes can see."""
    out = {}
    for n in ("P", "Inner", "Sub", "Raw"):
        cl = ns[n]
        d = {k: id(x) for k, x in vars(cl).items() if not k.startswith("__serde")}
        d.pop("__dict__", None)
        d.pop("__weakref__", None)
        d.pop("__slotnames__", None)  # cached there by copy and pickle
        out[n + " attributes"] = d
        out[n + " signature"] = str(inspect.signature(cl))
        out[n + " fields"] = [(f.name, repr(f.type), f.init, f.repr, f.compare, id(f.default), dict(f.metadata)) for f in dataclasses.fields(cl)]
        out[n + " bases"] = (cl.__mro__, cl.__qualname__, cl.__module__, cl.__doc__)
        out[n + " hash"] = cl.__hash__ is None
    args = {k: eval(v, ns) for k, v in bad.items()}
    for n in ("P", "Sub", "Raw"):
        o = ns[n](**args)
        out[n + " ill-typed"] = re.sub("0x[0-9a-f]+", "0x", repr(o))
        out[n + " holds"] = [id(getattr(o, k)) == id(v) for k, v in args.items()]
        out[n + " copy"] = (copy.copy(o) == o, dataclasses.asdict(o) is not None, sorted(vars(o)) if hasattr(o, "__dict__") else None)
        try:
            pickle.dumps(o)
            out[n + " pickle"] = True
        except Exception as e:
            out[n + " pickle"] = type(e).__name__
    out["Inner ill-typed"] = repr(vars(ns["Inner"](n="text")))
    return out


def plain(r, rec):
    names = r.sample(list(GOOD), r.randint(1, 4))
    deco = r.choice(["@_d.dataclass"] * 3 + ["@_d.dataclass(order=True)", "@_d.dataclass(repr=False)", "@_d.dataclass(unsafe_hash=True)", "@_d.dataclass(kw_only=True)"])
    src = PLAIN.format(deco=deco, deco2=deco, fields="".join(f"    {f}\n" for f in FIELDS if f.split(":")[0] in names), body=r.choice(BODIES))
    names = [f.split(":")[0] for f in FIELDS if f.split(":")[0] in names]
    hold = r.choice([None, None, "serialize", "deserialize", "serde"])
    if hold:
        src += HOLD.format(side=hold)
    prog = Program([src], header="LOG = []\n")
    with Case(rec, prog) as c:
        ns = c.ns
        bad = {n: (BAD if r.random() < 0.6 else GOOD)[n] for n in names}
        if not any(bad[n] == BAD[n] for n in names):
            bad[names[0]] = BAD[names[0]]
        before = state(ns, bad)
        good = {n: GOOD[n] for n in names}
        wire = {n: WIRE[n] for n in names}
        hist = []
        for _ in range(r.randint(1, 5)):
            n = r.choice(["P", "P", "P", "Sub", "Raw"])
            tag = "'" + n + "'"
            vs = f"{n}({', '.join(f'{a}={b}' for a, b in good.items())})"
            data = dict(wire, **({"extra": 1} if n == "Sub" else {}))
            positional = tuple(TUPLES.get(k, v) for k, v in data.items())
            op = r.choice([
                f"to_dict({vs})", f"to_tuple({vs})", f"to_json({vs})", f"from_dict({n}, {data!r})", f"from_json(list[{n}], to_json([{vs}]))",
                f"to_dict([{vs}], c=list[{n}])", f"from_dict(dict[str, {n}], {{'k': {data!r}}})", f"from_dict(_t.Optional[{n}], {data!r})",
                f"to_dict({vs}, c=_t.Union[{n}, int])", f"from_dict(_t.Union[{n}, int], {{{tag}: {data!r}}})", f"from_tuple({n}, {positional!r})",
                f"to_yaml({{'a': {vs}}})", f"to_dict({vs}, c=_t.Any)", f"from_dict(tuple[{n}, int], [{data!r}, 1])",
                f"from_dict(InternalTagging('type', _t.Union[{n}, Inner]), dict({data!r}, type={tag}))", f"is_serializable({n})", f"is_deserializable({n})"])
            if hold and r.random() < 0.35:
                rec.event("held")
                n = "Raw"  # objects of Sub there are a known finding
                v1, v2 = (f"{k}({', '.join(f'{a}={b}' for a, b in good.items())})" for k in (n, "P"))
                op = f"to_dict(Hold({v1}, {v2}))" if r.random() < 0.5 else f"from_dict(Hold, {dict(r=dict(wire), b=dict(wire))!r})"
            hist.append(op)
            env = {**ns, **{k: getattr(serde, k) for k in ("to_dict", "from_dict", "to_tuple", "from_tuple", "InternalTagging", "is_serializable", "is_deserializable")},
                   "to_json": serde.json.to_json, "from_json": serde.json.from_json, "to_yaml": serde.yaml.to_yaml}
            try:
                got = eval(op, env)
            except Exception as e:
                c.fail(f"{op} raised {type(e).__name__}: {str(e)[:200]}", *hist)
            if op.startswith("to_dict(" + n):
                want = data
                if "Union" in op:
                    want = {n: want}
                if "t" in want.get(n, want):
                    (want.get(n) or want)["t"] = (1, "a")
                if not same(got, want):
                    c.fail(f"{op} gave {short(got)}", *hist)
            rec.event("uses")
            try:
                after = state(ns, bad)
            except Exception as e:
                c.fail(f"after using plain classes directly, building or copying one raised {type(e).__name__}: {str(e)[:200]}", *hist,
                       f"P({', '.join(f'{a}={b}' for a, b in bad.items())})")
            rec.event("observed")
            rec.event("ill_typed_built", 4)
            c.evaluate((tuple(hist), "plain"))
            for k in before:
                if before[k] != after[k] and not k.endswith("attributes"):
                    c.fail(f"using plain classes directly changed them: {k}: {short(before[k])} became {short(after[k])}", *hist)
                if k.endswith("attributes") and before[k] != after[k]:
                    diff = sorted(x for x in set(before[k]) | set(after[k]) if before[k].get(x) != after[k].get(x))
                    c.fail(f"using plain classes directly changed the attributes {diff} of {k.split()[0]}", *hist)
