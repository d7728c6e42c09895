"""P29: classes that refer to themselves and to each other behave like any others."""
import random

import serde

from checks.p14_malformed import mutate
from checks.p24_classes import Late
from lib import formats
from lib.gen import CASES, Gen, PG, TAGS
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import (Bool, Cls, ClsT, DateT, DequeT, DictT, Float, Fld, Int, ListT, ModelError, NoneT, OptT, Opts, Program, Str, StrSer, TupleT, UnionT,
                      Unknown, VarTupleT, lit, same)

PROP = "P29"
BUDGET = {"quick": 1800, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, value or data, function) compared with the model"
MIN = {}
NAMES = ["Node", "Tree", "Leaf", "Expr", "A", "B", "Bb"]
FIELD = ["v", "left", "right", "kids", "next_", "fooBar", "parent", "data", "o", "obj", "a_b", *[f"f{k}" for k in range(12)]]


class QFld(Fld):
    """A field whose whole annotation is text."""

    def src(self):
        t = self.ty.src()
        out = super().src()
        if '"' in t:
            return out
        return out.replace(f": {t}", ': "' + t.replace("'", "") + '"', 1)


def ref(r, cs, future):
    t = ClsT(r.choice(cs))
    t.quoted = not future
    return t


def scalar(r):
    return r.choice([Int(), Str(), Float(), Bool(), DateT("_dt.date"), StrSer("_dec.Decimal"), StrSer("_pl.Path")])


def guarded(r, cs, depth, future):
    """A type some of whose values hold no objects."""
    k = r.random()
    inner = (lambda: ref(r, cs, future)) if depth <= 0 or r.random() < 0.6 else (lambda: guarded(r, cs, depth - 1, future))
    if k < 0.3:
        el = inner()
        return el if isinstance(el, OptT) else OptT(el) if not (isinstance(el, UnionT) and any(isinstance(x, NoneT) for x in el.els)) else el
    if k < 0.5:
        return ListT(inner(), r.choice(["list[{}]", "_t.List[{}]"]))
    if k < 0.65:
        return DictT(r.choice([Str(), Int()]), inner(), r.choice(["dict[{}, {}]", "_t.Dict[{}, {}]"]))
    if k < 0.72:
        return VarTupleT(inner())
    if k < 0.78:
        return DequeT(inner())
    if k < 0.84:
        return TupleT([Int(), OptT(ref(r, cs, future))])
    members = [ref(r, [c], future) for c in r.sample(cs, min(len(cs), r.choice([1, 1, 2])))]
    members.append(r.choice([Int(), Str(), Bool()]))
    if r.random() < 0.3:
        members.append(NoneT())
    r.shuffle(members)
    if isinstance(members[-1], NoneT) and len(members) == 2:
        return OptT(members[0])
    return UnionT(members, "union")


def make(r):
    future = r.random() < 0.35
    n = r.choice([1, 1, 2, 2, 3, 4])
    cs = []
    names = r.sample(NAMES, n)
    for k in range(n):
        plain = r.random() < 0.3
        kw = {}
        if plain:
            kw["decorator"] = "plain"
        else:
            kw["check"] = r.choice(["strict", "strict", "disabled", "coerce"])
            if r.random() < 0.3:
                kw["rename_all"] = r.choice(CASES)
            q = r.random()
            if q < 0.2:
                kw["tagging"] = ("internal", r.choice(TAGS))
            elif q < 0.4:
                kw["tagging"] = ("adjacent", *r.sample(TAGS, 2))
        cl = (Cls if plain else Late)(names[k], [], explicit_dc=True, **kw)
        if cs and r.random() < 0.2:
            cl.bases = [r.choice(cs)]
        cl.kw_only = r.random() < 0.1 or bool(cl.bases)
        cs.append(cl)
    for k, cl in enumerate(cs):
        names = [x for x in FIELD if x not in {f.name for f in cl.all_fields()}]
        r.shuffle(names)
        fields = [Fld(names.pop(), scalar(r)) for _ in range(r.choice([0, 1, 1, 2]))]
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            # an object that must be there is of a class declared earlier, so that values are finite
            if k and r.random() < 0.2:
                t = ref(r, cs[:k], future)
            else:
                t = guarded(r, cs, 1, future)
            f = (Fld if future or r.random() < 0.7 else QFld)(names.pop(), t)
            if isinstance(t, OptT) and r.random() < 0.5:
                f.default = None
            elif isinstance(t, ListT) and r.random() < 0.5:
                f.factory = "list"
            fields.append(f)
        if cl.decorator != "plain" and r.random() < 0.15:
            fields[0].rename = "re-named"
        if not cl.kw_only:
            fields.sort(key=lambda f: f.has_default())
        cl.fields = fields
    decls = list(cs)
    r.shuffle(decls)
    while any(c.bases and decls.index(c.bases[0]) > decls.index(c) for c in decls):
        r.shuffle(decls)
    late = [c for c in cs if isinstance(c, Late)]
    r.shuffle(late)
    prog = Program(decls, future=future)
    prog.decls = decls + [c.statement() for c in late]
    return prog, cs


def edges(cl):
    return {id(t.cls) for f in cl.all_fields() for t in f.ty.walk() if isinstance(t, ClsT)}


def shape(cs):
    """Which classes reach themselves."""
    out = set()
    by = {id(c): c for c in cs}
    for c in cs:
        if id(c) in edges(c):
            out.add("self")
        seen, todo = set(), [x for x in edges(c) if x != id(c)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += edges(by[x])
        if id(c) in seen:
            out.add("mutual")
    return out


def depth(v):
    if hasattr(v, "__dataclass_fields__"):
        return 1 + max([depth(getattr(v, f)) for f in v.__dataclass_fields__], default=0)
    if isinstance(v, dict):
        return max(map(depth, v.values()), default=0)
    if isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
        return max(map(depth, v), default=0)
    return 0


class DeepGen(Gen):
    """Keeps one branch going."""

    def size(self):
        self.count += 1
        if self.enough():
            return 0
        return 1 if self.count > 12 else self.r.randint(1, 2)


def case(r, rec, i, cfg):
    prog, cs = make(r)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        for s in shape(cs):
            rec.event(s)
        gens = [Gen(r, c.ns, maxdepth=4), Gen(r, c.ns, maxdepth=3), DeepGen(r, c.ns, maxdepth=r.choice([5, 12, 12, 25, 25, 60]), p_default=0.0)]
        todo = [(cl, g) for cl in cs for g in gens]
        r.shuffle(todo)
        done = []
        for cl, g in todo:
            g.count = g.depth = 0
            try:
                v = c.value(ClsT(cl), g)
            except Unknown:
                rec.skip("value")
                continue
            d = depth(v)
            rec.event("depth_0_3" if d < 4 else "depth_4_9" if d < 10 else "depth_10_39" if d < 40 else "depth_40_up")
            use(c, rec, r, cl, v, done)


def use(c, rec, r, cl, v, done):
    t = ClsT(cl)
    py = c.ns[cl.name]
    for named in r.sample([True, False], 2):
        fn = serde.to_dict if named else serde.to_tuple
        e = expect(t.ser, v, Opts(named=named))
        c.lines = list(done)
        line = f"print({fn.__name__}({lit(v)}))"
        c.must(e, call(fn, v), fn.__name__, line, order=True)
        done.append(line)
        e = expect(t.ser, v, Opts(named=named, reuse=False, sets=True))
        if e.kind != "ok":
            continue
        w = e.v
        k = r.random()
        if k < 0.3:
            w = mutate(r, w, ["v", "next_", "kids", "data", "", 1], None)
            rec.event("mutated")
        fn = serde.from_dict if named else serde.from_tuple
        if named and r.random() < 0.4:
            fmt = r.choice(["json", "yaml", "msgpack", "pickle"])
            try:
                text = formats.dumps(fmt, w)
                if not same(formats.loads(fmt, text), w):
                    raise ValueError
            except Exception:
                rec.skip("no document")
                continue
            fn = getattr(FMT[fmt], f"from_{fmt}")
            arg = text
        else:
            arg = w
        line = f"print({fn.__name__}({cl.name}, {lit(arg) if not isinstance(arg, (str, bytes)) else repr(arg)}))"
        c.lines = list(done)
        c.must(expect(t.de, w, formats.de_opts(fn.__name__[5:]) if arg is not w else Opts(named=named)), call(fn, py, arg), fn.__name__, line)
        rec.event(fn.__name__)
        done.append(line)
    if len(done) > 16:
        del done[:-16]
