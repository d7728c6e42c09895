"""P11: the first accepting member of an untagged union wins; nothing outside the union comes out."""
import serde

from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (AnyT, Bool, Cls, ClsT, DateT, DequeT, DictT, EnumT, Fld, Float, FrozenSetT, Int, ListT, Lit, ModelError, NoneT, OptT,
                      Opts, SetT, Str, StrSer, TupleT, UnionT, Unknown, VarTupleT, gen_plain, lit, same)

PROP = "P11"
BUDGET = {"quick": 3200, "thorough": 100000}
CHUNK = 50
RULE = "distinct (program, union, data) whose accepting member or rejection was compared"
MIN = {"evaluations": 75000, "distinct": 66000, "accepts": 55000, "rejects": 9600, "later_member": 13000, "direct": 10000,
       "contained": 5900, "optional": 660}


def member(r, pg):
    k = r.randint(0, 17)
    s = lambda: r.choice([Int, Str, Float, Bool, Int, Str])()
    if k <= 4:
        return s()
    if k == 5:
        return ListT(s())
    if k == 6:
        return DictT(Str(), s())
    if k == 7:
        return StrSer(r.choice(list(StrSer.TYPES)))
    if k == 8:
        return DateT(r.choice(list(DateT.PY)))
    if k == 9:
        return pg.enum()
    if k == 10:
        return pg.literal()
    if k == 11:
        return TupleT([s(), s()])
    if k == 12:
        return VarTupleT(s())
    if k == 13:
        return SetT(s())
    if k == 14:
        return r.choice([FrozenSetT(s()), DequeT(s())])
    if k == 15:
        return NoneT()
    if k == 16 and pg.classes:
        return ListT(ClsT(r.choice(pg.classes)))
    if pg.classes:
        return ClsT(r.choice(pg.classes))
    return ListT(Str())


def selective(c):
    """The class does not accept just any data."""
    return not c.transparent and any(not f.has_default() and not nullable(f.ty) for f in c.de_fields())


def distinct(els):
    out = []
    for e in els:
        if not any(e.src() == o.src() for o in out):
            out.append(e)
    return out


def case(r, rec, i, cfg):
    pg = PG(r, depth=1, taggings=("untagged",), inherit=0.1, transparent=0.0, max_fields=3, rename=0.1, any=False, bare=False, unions=False,
            deny=0.3, defaults=0.3, plain=0.1, check=("strict", "strict", "disabled"))
    for _ in range(r.randint(1, 3)):
        pg.cls()
    pg.classes = [c for c in pg.classes if selective(c)]
    els = distinct([member(r, pg) for _ in range(r.choice([2, 2, 3, 3, 4, 5]))])
    if len(els) < 2:
        els = distinct([Int(), *els, Str()])
    if len(els) == 2 and any(isinstance(e, NoneT) for e in els):
        u = OptT([e for e in els if not isinstance(e, NoneT)][0])
    else:
        u = UnionT(els, "pipe" if r.random() < 0.3 else "union")
    us = [u]
    for _ in range(r.choice([0, 1, 2])):
        if isinstance(u, UnionT):
            us.append(UnionT(r.sample(els, len(els))))
    hs = []
    for k, x in enumerate(us):
        # (typing caches Optional[Union[..]] regardless of the order of the members)
        t = r.choice([x, x, ListT(x), DictT(Str(), x), TupleT([Int(), x]), x if nullable(x) or len(us) > 1 else OptT(x)])
        if nested_union_none(t):
            t = x
        hs.append((pg.cls(fields=[Fld("u", t)], check=r.choice(["strict", "strict", "disabled", "coerce"]),
                          decorator=r.choice(["serde", "serde", "both"])), t))
        hs[-1][0].tagging = ("untagged",)
        hs[-1][0].rename_all = None
        hs[-1][0].transparent = False
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        order = list(range(len(hs)))
        r.shuffle(order)
        for k in order:
            h, t = hs[k]
            for _ in range(4):
                field(c, rec, r, h, t, us[k], g)
            if isinstance(us[k], UnionT):
                for _ in range(3):
                    direct(c, rec, r, us[k], g)
        for e in els:
            if not nullable(e):
                optional(c, rec, r, OptT(e, r.choice(OptT.FORMS[:1] if isinstance(e, ClsT) else OptT.FORMS)), g)


def optional(c, rec, r, t, g):
    """Optional of a member, used directly."""
    top = r.choice([t, ListT(t), ListT(t), DictT(Str(), t), TupleT([t, t]), VarTupleT(t), DequeT(t), ListT(ListT(t))])
    typ = eval(top.src(), c.ns)
    for _ in range(2):
        rec.event("direct_optional")
        v = c.value(top, g)
        if r.random() < 0.5:
            v = falsy(r, top, t, v)
        try:
            w = top.ser(v, Opts(reuse=False, sets=True))
        except (ModelError, Unknown):
            continue
        if r.random() < 0.3:
            w = data_for(r, top, t, g, c)
        exp = expect(top.de, w, Opts(check="direct"))
        out = call(serde.from_dict, typ, w)
        c.must(exp, out, "from_dict", f"print(from_dict({top.src()}, {lit(w)}))")


def falsy(r, top, t, v):
    """Puts the falsy value of the member into the container."""
    z = {"int": 0, "str": "", "bool": False, "float": 0.0}.get(t.el.src())
    if isinstance(t.el, ListT):
        z = []
    elif isinstance(t.el, DictT):
        z = {}
    if z is None:
        return v
    if top is t:
        return z
    if isinstance(top, DictT):
        return {**v, "z": z}
    if isinstance(top, TupleT):
        return (z, None)
    if isinstance(top.el, ListT):
        return v + [[z, None]]
    return v + type(v)([z])


def nested_union_none(t):
    return isinstance(t, OptT) and isinstance(t.el, UnionT) and any(isinstance(e, NoneT) for e in t.el.els)


def data_for(r, t, u, g, c):
    """Data of some shape the type could be fed with, often meant for another member."""
    if isinstance(t, ListT) and t is not u:
        return [data_for(r, u, u, g, c) for _ in range(r.randint(0, 2))]
    if isinstance(t, DictT) and t is not u:
        return {k: data_for(r, u, u, g, c) for k in r.sample(["a", "b"], r.randint(0, 2))}
    if isinstance(t, TupleT) and t is not u:
        return [1, data_for(r, u, u, g, c)]
    if isinstance(t, OptT) and t is not u:
        return None if r.random() < 0.2 else data_for(r, u, u, g, c)
    k = r.random()
    if k < 0.65:
        els = u.els if isinstance(u, UnionT) else [u]
        e = r.choice(els)
        try:
            w = e.ser(e.gen(g), Opts(reuse=False, sets=True, tagging=("untagged",), check="disabled"))
        except (ModelError, Unknown):
            return 1
        if isinstance(w, dict) and w and r.random() < 0.2:
            w = dict(w)
            x = r.choice(list(w))
            if r.random() < 0.5:
                del w[x]
            else:
                w[x] = gen_plain(g, 1)
        elif isinstance(w, (list, tuple)) and w and r.random() < 0.2:
            w = list(w)[:-1] if r.random() < 0.5 else [gen_plain(g, 0) for _ in w]
        return w
    return gen_plain(g, 2)


def judge(c, rec, u, exp, out, what, top, *ln):
    c.must(exp, out, what, *ln)
    if exp.kind == "ok" and isinstance(u, UnionT):
        rec.event("member_known")
    if out.kind == "ok" and exp.kind == "unknown":
        rec.event("contained")
        if top(out.v) == "no":
            c.fail(f"{what} {out!r}, which is outside the union", *ln)


def later(u, w, rec):
    """Count the decisions where an earlier member had to be passed over."""
    if not isinstance(u, UnionT):
        return
    o = Opts(tagging=("untagged",), check="disabled")
    for n, e in enumerate(u.els):
        try:
            UnionT([e]).de(w, o)
            if n:
                rec.event("later_member")
            return
        except (ModelError, Unknown):
            continue


def field(c, rec, r, h, t, u, g):
    typ = eval(h.name, c.ns)
    if isinstance(t, OptT) or isinstance(u, OptT):
        rec.event("optional")
    # serialization uses the member the value belongs to
    v = c.value(ClsT(h), g)
    o = Opts(reuse=r.choice([True, False]), sets=r.choice([True, False]))
    c.lines = []
    c.must(expect(ClsT(h).ser, v, o), call(serde.to_dict, v, reuse_instances=o.reuse, convert_sets=o.sets), "to_dict",
           f"print(to_dict({lit(v)}, reuse_instances={o.reuse}, convert_sets={o.sets}))")
    for _ in range(3):
        w = data_for(r, t, u, g, c)
        later(u, w, rec)
        exp = expect(ClsT(h).de, {"u": w}, Opts())
        judge(c, rec, u, exp, call(serde.from_dict, typ, {"u": w}), "from_dict", lambda x: t.isa(x.u) if h.check == "strict" else "yes",
              f"print(from_dict({h.name}, {{'u': {lit(w)}}}))")


def direct(c, rec, r, u, g):
    w = data_for(r, u, u, g, c)
    rec.event("direct")
    later(u, w, rec)
    if isinstance(u, UnionT):
        src = f"_s.Untagged({u.src()})"
    else:
        src = u.src()
    typ = eval(src, c.ns)
    exp = expect(u.de, w, Opts(tagging=("untagged",)))
    judge(c, rec, u, exp, call(serde.from_dict, typ, w), "from_dict", u.isa, f"print(from_dict({src}, {lit(w)}))")
    if isinstance(u, UnionT):
        v = c.value(u, g)
        o = Opts(reuse=r.choice([True, False]), sets=r.choice([True, False]), tagging=("untagged",))
        c.must(expect(u.ser, v, o), call(serde.to_dict, v, c=typ, reuse_instances=o.reuse, convert_sets=o.sets), "to_dict",
               f"print(to_dict({lit(v)}, c={src}, reuse_instances={o.reuse}, convert_sets={o.sets}))")
