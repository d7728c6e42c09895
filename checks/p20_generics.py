"""P20: generic classes convert fields of type variable type to the argument bound to it, at every depth."""
import serde

from lib import formats
from lib.gen import CASES, Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (AnyT, BoundT, Cls, ClsT, CounterT, DateT, DequeT, DictT, EnumT, Fld, Float, FrozenSetT, Int, ListT, ModelError, OptT, Opts,
                      Program, SetT, Str, StrSer, TVar, TupleT, Ty, UnionT, Unknown, VarTupleT, lit, same)

PROP = "P20"
BUDGET = {"quick": 3000, "thorough": 80000}
CHUNK = 50
RULE = "distinct (program of generic classes, parametrization, data) whose written or read form was compared"
MIN = {"evaluations": 43000, "distinct": 43000, "accepts": 40000, "rejects": 3400, "nested_generic": 1100, "derived_generic": 820,
       "pep695": 1000, "unparametrized": 2900, "generic_field": 2100, "several_parametrizations": 3400}
NAMES = ["T", "U", "V", "K", "_Tv", "T1"]


def tv_type(r, tvars, generics, depth=2):
    """A field type that uses type variables."""
    t = TVar(r.choice(tvars))
    k = r.random()
    if k < 0.4 or depth <= 0:
        return t
    if k < 0.65 and generics:
        return nested(r, tvars, r.choice(generics), depth - 1)
    el = tv_type(r, tvars, generics, depth - 1)
    return r.choice([lambda: ListT(el), lambda: DictT(Str(), el), lambda: OptT(el, r.choice(OptT.FORMS[::2])) if not isinstance(el, OptT) else el,
                     lambda: TupleT([el, t]), lambda: VarTupleT(el), lambda: DequeT(el), lambda: ListT(el, "_t.List[{}]"),
                     lambda: DictT(Int(), el)])()


def nested(r, tvars, c, depth, concrete=None):
    """A reference to a generic class: its arguments are type variables of the user, types made of them, or concrete types."""
    args = []
    for _ in c.tvars:
        k = r.random()
        if tvars and k < 0.55:
            args.append(TVar(r.choice(tvars)))
        elif tvars and k < 0.75:
            args.append(r.choice([ListT, lambda x: DictT(Str(), x), DequeT])(TVar(r.choice(tvars))))
        else:
            args.append(concrete() if concrete else r.choice([Int, Str])())
    return ClsT(c, args)


def concrete(r, pg, plain, depth=1):
    k = r.random()
    if plain and k < 0.4:
        return ClsT(r.choice(plain))
    if k < 0.7 or depth <= 0:
        return r.choice([Int, Str, Float, lambda: StrSer(r.choice(list(StrSer.TYPES))), lambda: DateT("_dt.datetime"),
                         lambda: DateT("_dt.date"), pg.enum])()
    el = concrete(r, pg, plain, depth - 1)
    return r.choice([lambda: ListT(el), lambda: DictT(Str(), el), lambda: OptT(el) if not nullable(el) else el, lambda: TupleT([el, Int()]),
                     lambda: DequeT(el), lambda: SetT(Str()), lambda: FrozenSetT(Int())])()


def make(r, rec):
    pg = PG(r, depth=1, inherit=0.0, transparent=0.0, unions=False, any=False, bare=False, max_fields=3, plain=0.25, ncls=(1, 2), future=0.0,
            primsubs=False, newtypes=False, none=False, alias695=False, sets=True)
    for _ in range(r.choice([1, 2])):
        pg.cls()
    plain = [c for c in pg.classes]
    generics = []
    n = r.choice([1, 2, 3, 4])
    for k in range(n):
        tvars = r.sample(NAMES, r.choice([1, 1, 2, 2, 3]))
        c = Cls(pg.name(), [], tvars=tvars, pep695=r.random() < 0.25)
        c.decorator = r.choice(["serde"] * 4 + ["both", "plain"])
        if c.decorator != "plain":
            c.check = r.choice(["strict", "strict", "disabled", "coerce"])
            if r.random() < 0.2:
                c.rename_all = r.choice(CASES)
            if r.random() < 0.15:
                c.sets = r.choice([True, False])
        if c.pep695:
            rec.event("pep695")
        bases = []
        if generics and r.random() < 0.35:
            b = r.choice(generics)
            if not any(f.has_default() for f in b.all_fields()):
                if c.pep695 or r.random() < 0.7:
                    base = nested(r, tvars, b, 1, lambda: concrete(r, pg, plain, 0))
                    used = {t.name for t in base.walk() if isinstance(t, TVar)}
                    if not c.pep695:
                        # the class is generic in the variables its base is given
                        tvars = list(dict.fromkeys(t.name for t in base.walk() if isinstance(t, TVar)))
                        c.tvars = tvars
                    bases = [base]
                else:
                    bases = [b]
                    tvars = c.tvars = []
                c.bases = bases
                rec.event("derived_generic")
        names = pg.field_names(8)
        taken = {f.name for f in c.all_fields()}
        names = [x for x in names if x not in taken]
        for _ in range(r.randint(1, 3)):
            if tvars and r.random() < 0.75:
                f = Fld(names.pop(), tv_type(r, tvars, generics if r.random() < 0.6 else [], 2))
            else:
                f = Fld(names.pop(), concrete(r, pg, plain))
                if generics and r.random() < 0.4:
                    g = r.choice(generics)
                    if r.random() < 0.8:
                        t = nested(r, [], g, 1, lambda: concrete(r, pg, plain, 1))
                        f.ty = r.choice([lambda: t, lambda: ListT(t), lambda: DictT(Str(), t), lambda: OptT(t)])()
                        rec.event("generic_field")
                    else:
                        f.ty = ClsT(g)
            if any(isinstance(t, ClsT) and t.args for t in f.ty.walk()):
                rec.event("nested_generic")
            if isinstance(f.ty, OptT) and r.random() < 0.4:
                f.default = None
            if r.random() < 0.1 and c.decorator != "plain":
                f.rename = f"re {f.name}"
            c.fields.append(f)
        if any(b for b in bases):
            c.fields.sort(key=lambda f: f.has_default())
        c.fields.sort(key=lambda f: f.has_default())
        pg.fix_names(c)
        generics.append(c)
        pg.decls.append(c)
    user = None
    if r.random() < 0.5:
        user = Cls(pg.name(), [])
        for x in pg.field_names(r.randint(1, 3)):
            t = nested(r, [], r.choice(generics), 1, lambda: concrete(r, pg, plain, 1))
            user.fields.append(Fld(x, r.choice([lambda: t, lambda: ListT(t), lambda: DictT(Str(), t), lambda: OptT(t), lambda: TupleT([t, Int()])])()))
            rec.event("generic_field")
        pg.decls.append(user)
    prog = Program(pg.decls)
    prog.header = "".join(f"{n} = _t.TypeVar({n!r})\n" for n in NAMES)
    return pg, prog, plain, generics, user


def case(r, rec, i, cfg):
    pg, prog, plain, generics, user = make(r, rec)
    tops = []
    for c in generics[::-1][:3]:
        for _ in range(2 if c.tvars else 1):
            tops.append(ClsT(c, [concrete(r, pg, plain) for _ in c.tvars]))
        if c.tvars:
            rec.event("several_parametrizations")
    if user:
        tops.append(ClsT(user))
    with Case(rec, prog) as c:
        for t in tops:
            for x in t.walk():
                if isinstance(x, EnumT) and not hasattr(x, "mod"):
                    x.mod = c.ns
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.2)
        todo = []
        for t in tops:
            for _ in range(2):
                todo.append((t, c.value(t, g)))
        r.shuffle(todo)
        for t, v in todo:
            one(c, rec, r, t, v)


def one(c, rec, r, t, v):
    named = r.random() < 0.75
    kw = {}
    if r.random() < 0.25:
        kw["reuse_instances"] = r.choice([True, False])
    if r.random() < 0.25:
        kw["convert_sets"] = r.choice([True, False])
    fn = serde.to_dict if named else serde.to_tuple
    o = Opts(named=named, reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets"))
    top = t
    val = v
    k = r.random()
    if k < 0.15:
        top, val = ListT(t), [v]
    elif k < 0.25:
        top, val = DictT(Str(), t), {"k": v}
    elif k < 0.3:
        top = OptT(t)
    c.must(expect(top.ser, val, o), call(fn, val, **kw), fn.__name__, f"print({fn.__name__}({lit(val)}, **{kw}))", order=True)
    e = expect(top.ser, val, Opts(named=named, reuse=False, sets=True))
    if e.kind != "ok":
        rec.skip("form not determined")
        return
    typ = eval(top.src(), c.ns)
    data = e.v
    fd = serde.from_dict if named else serde.from_tuple
    exp = expect(top.de, data, Opts(named=named))
    c.must(exp, call(fd, typ, data), fd.__name__, f"print({fd.__name__}({top.src()}, {lit(data)}))")
    if exp.kind == "ok" and not same(exp.v, val) and not defaulted(t):
        rec.event("lossy")
    if named and r.random() < 0.5:
        fmt = r.choice(["json", "json", "yaml", "msgpack", "toml"])
        to = f"to_{fmt}"
        out = call(getattr(FMT[fmt], to), val)
        try:
            doc = formats.dumps(fmt, data)
            ext = formats.loads(fmt, doc)
        except Exception:
            ext = None
        if ext is not None:
            fr = f"from_{fmt}"
            exp = expect(top.de, ext, formats.de_opts(fmt))
            if exp.kind == "ok":
                doc2 = c.ok(out, to, f"print({to}({lit(val)}))")
                c.must(exp, call(getattr(FMT[fmt], fr), typ, doc2), fr, f"print({fr}({top.src()}, {lit(doc2)}))")
    if t.args and r.random() < 0.3 and top is t:
        # without arguments the variables stand for anything
        rec.event("unparametrized")
        bare = ClsT(t.cls)
        c.must(expect(bare.de, data, Opts(named=named)), call(fd, eval(bare.src(), c.ns), data), fd.__name__,
               f"print({fd.__name__}({bare.src()}, {lit(data)}))")
    if r.random() < 0.4:
        # an object of a class replaced by something no class accepts
        bad = spoil(r, top, data, named)
        if bad is not None:
            c.must(expect(top.de, bad, Opts(named=named)), call(fd, typ, bad), fd.__name__, f"print({fd.__name__}({top.src()}, {lit(bad)}))")


def defaulted(t):
    return False


def spoil(r, top, data, named):
    from checks.p09_deny import at
    spots = []

    def walk(t, w, path):
        if isinstance(t, BoundT):
            return walk(t.inner, w, path)
        if isinstance(t, ClsT):
            if not isinstance(w, dict):
                return
            need = [f for f in t.cls.de_fields() if not f.has_default() and not isinstance(f.ty, OptT)]
            if need and path:
                spots.append(path)
            for f in t.cls.de_fields():
                k = t.cls.wire_name(f)
                if k in w:
                    walk(t.cls.fty(f, t.args), w[k], path + (k,))
        elif isinstance(t, OptT) and w is not None:
            walk(t.el, w, path)
        elif isinstance(t, DictT) and isinstance(w, dict):
            for k, x in w.items():
                walk(t.v, x, path + (k,))
        elif isinstance(t, TupleT):
            for n, e in enumerate(t.els):
                walk(e, w[n], path + (n,))
        elif hasattr(t, "el") and isinstance(w, (list, tuple)) and not isinstance(t, SetT):
            for n, x in enumerate(w):
                walk(t.el, x, path + (n,))
    if not named:
        return None
    walk(top, data, ())
    if not spots:
        return None
    return at(data, r.choice(spots), lambda _: r.choice([5, {}, 1.5, True]))
