"""P21: a transparent class is written and read as its single field, everywhere, and is built as the class."""
import dataclasses

import serde
from serde import SerdeError

from checks.p14_malformed import mutate, wild
from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import (Cls, ClsT, DictT, Fld, Int, ListT, ModelError, OptT, Opts, Str, TVar, TupleT, UnionT, Unknown, VarTupleT, lit, same)

PROP = "P21"
BUDGET = {"quick": 2500, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, value, options) whose written form, or (program, data) whose reading, was compared with the single field's"
MIN = {"evaluations": 39000, "written": 13000, "read": 16000, "refused": 7100, "built": 9700, "declarations_refused": 110,
       "declarations_accepted": 8, "nested_transparent": 950, "extra_fields": 860, "in_user": 540, "formats": 3600, "union_member": 980,
       "generic": 130, "derived": 290}
LOGGED = "    def __post_init__(self):\n        LOG.append(type(self).__name__)\n"


def extras(r, taken):
    """Fields that do not count: neither given to the constructor nor written."""
    out = []
    for n in range(r.choice([0, 0, 1, 2])):
        f = Fld(f"cache{n}", Int(), init=False)
        f.default = n + 40
        if r.random() < 0.3:
            f.skip_ser = f.skip_de = True
        else:
            f.skip = True
        out.append(f)
    return out


def make(r, rec):
    pg = PG(r, depth=r.choice([0, 1, 2]), transparent=0.0, ncls=(1, 2), max_fields=3, untagged=True)
    for _ in range(r.choice([0, 1, 2])):
        pg.cls()
    wraps, twins = [], []
    for n in range(r.choice([1, 2, 2, 3])):
        opts = dict(check=r.choice(["strict", "strict", "disabled", "coerce"]), frozen=r.random() < 0.15, kw_only=r.random() < 0.15,
                    decorator=r.choice(["serde"] * 5 + ["both"]))
        if r.random() < 0.2:
            opts["reuse"] = r.choice([True, False])
        if r.random() < 0.2:
            opts["sets"] = r.choice([True, False])
        if r.random() < 0.2:
            opts["slots"] = True
        t = pg.ty()
        for _ in range(4):
            if not any(isinstance(x, ClsT) and x.cls in wraps for x in t.walk()) and wraps and r.random() < 0.35:
                t = ClsT(r.choice(wraps))
        if any(isinstance(x, ClsT) and x.cls in wraps for x in t.walk()):
            rec.event("nested_transparent")
        name = pg.field_names(1)[0]
        f = Fld(name, t)
        g = Fld(name, t)
        if r.random() < 0.2:
            pg.add_default(f)
            g.default, g.factory, g.default_src = f.default, f.factory, f.default_src
        if r.random() < 0.15:
            f.rename = r.choice(["Renamed", "x y", "$r"])
            rec.event("renamed")
        if r.random() < 0.1:
            f.alias = ["other"]
        w = Cls(pg.name() + "W", [f], transparent=True, **opts)
        more = extras(r, {name})
        if more and not opts.get("slots"):
            w.fields = (w.fields + more) if f.has_default() or r.random() < 0.5 else more[:1] + w.fields + more[1:]
            if w.fields[0] is not f:
                for x in w.fields:
                    if x is not f:
                        x.default_src = None
                if not f.has_default():
                    # a default before a field without one needs keyword-only
                    w.kw_only = opts["kw_only"] = True
            rec.event("extra_fields")
        if r.random() < 0.15:
            w.rename_all = "pascalcase"
        w.body = LOGGED
        if r.random() < 0.15 and not opts.get("slots"):
            base = Cls(w.name + "B", [f], decorator=r.choice(["plain", "serde"]), frozen=w.frozen, kw_only=w.kw_only)
            base.check = w.check
            w.fields = [x for x in w.fields if x is not f]
            if not f.has_default() or all(x.has_default() for x in w.fields):
                w.bases = [base]
                pg.decls.append(base)
                rec.event("derived")
                w.explicit_dc = True
            else:
                w.fields = [f] + w.fields
        twin = Cls(w.name + "Twin", [g], **opts)
        pg.decls += [w, twin]
        wraps.append(w)
        twins.append(twin)
        pg.classes.append(w)
    user = None
    if r.random() < 0.5:
        fs = []
        for x in pg.field_names(r.choice([1, 2, 3])):
            t = ClsT(r.choice(wraps))
            if t.cls.frozen and False:
                pass
            fs.append(Fld(x, r.choice([lambda: t, lambda: ListT(t), lambda: DictT(Str(), t), lambda: TupleT([t, Int()]),
                                       lambda: t if nullable(t) else OptT(t)])()))
        user = Cls(pg.name() + "U", fields=fs)
        pg.decls.append(user)
        rec.event("in_user")
    from lib.spec import Program
    prog = Program(pg.decls, header="LOG = []\n")
    return prog, wraps, twins, user


def case(r, rec, i, cfg):
    if i % 10 == 0:
        declaration(r, rec)
        return
    if i % 10 == 1:
        generic(r, rec)
        return
    prog, wraps, twins, user = make(r, rec)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.1)
        for w, tw in zip(wraps, twins):
            for _ in range(2):
                v = c.value(ClsT(w), g)
                writing(c, rec, r, w, tw, v)
            reading(c, rec, r, w, tw, v)
        if user:
            v = c.value(ClsT(user), g)
            model(c, rec, r, user, v)
        model(c, rec, r, wraps[-1], c.value(ClsT(wraps[-1]), g))


def twin_of(c, w, tw, v):
    f = tw.fields[0]
    return c.ns[tw.name](**{f.name: getattr(v, f.name)})


def writing(c, rec, r, w, tw, v):
    """The same data as a class with that field writes for the field."""
    name = tw.fields[0].name
    v2 = twin_of(c, w, tw, v)
    for _ in range(3):
        kw = {}
        if r.random() < 0.5:
            kw["reuse_instances"] = r.choice([True, False])
        if r.random() < 0.5:
            kw["convert_sets"] = r.choice([True, False])
        if r.random() < 0.3:
            kw["skip_none"] = True
        named = r.random() < 0.7
        fn = serde.to_dict if named else serde.to_tuple
        a, b = call(fn, v, **kw), call(fn, v2, **kw)
        ln = (f"v, v2 = {lit(v)}, {lit(v2)}", f"print({fn.__name__}(v, **{kw}))", f"print({fn.__name__}(v2, **{kw}))")
        rec.event("written")
        c.evaluate((ln, "w"))
        if b.kind != "ok":
            if a.kind == "ok":
                c.fail(f"{fn.__name__}: the class with the field raises, the transparent class does not", *ln)
            continue
        # a field whose value is None is left out with skip_none, a transparent class is not a field
        exp = b.v.get(name) if named else b.v[0]
        if a.kind != "ok" or not same(a.v, exp):
            c.fail(f"{fn.__name__} of a transparent class: expected {short(exp)} but it {a!r}", *ln)
        # in a container
        lst = call(fn, [v, v], **kw)
        if lst.kind != "ok" or not same(lst.v, [exp, exp]):
            c.fail(f"{fn.__name__} of a list of transparent classes {lst!r}", *ln)
    fmt = r.choice(["json", "yaml", "msgpack", "pickle", "toml"])
    to, fr = f"to_{fmt}", f"from_{fmt}"
    a, b = call(getattr(FMT[fmt], to), v), call(getattr(FMT[fmt], to), v2)
    ln = (f"v, v2 = {lit(v)}, {lit(v2)}", f"print({to}(v), {to}(v2))")
    if b.kind != "ok" or (fmt == "toml" and (a.kind != "ok")):
        return
    if a.kind != "ok":
        # a raw value of this type may not be a document of the format on its own
        c.fail(f"{to} of a transparent class {a!r}", *ln)
    rec.event("formats")
    c.evaluate((ln, "f"))
    raw = {"strict_map_key": False} if fmt == "msgpack" else {}
    x, y = formats.loads(fmt, a.v, **raw), formats.loads(fmt, b.v, **raw)
    if not same(x, y.get(name)):
        c.fail(f"{to} of a transparent class: the document holds {short(x)}, as a field it holds {short(y.get(name))}", *ln)
    compare(c, rec, w, tw, lambda: call(getattr(FMT[fmt], fr), c.ns[w.name], a.v),
            lambda: call(getattr(FMT[fmt], fr), c.ns[tw.name], b.v), fr, f"d, d2 = {a.v!r}, {b.v!r}", f"print({fr}({w.name}, d), {fr}({tw.name}, d2))")


def sampled(out):
    """Type checks (of the constructor, of the members of a union) look at one random element of a container."""
    return out.kind == "serde" and ("violates type hint" in str(out.exc) or "Union" in str(out.exc))


def compare(c, rec, w, tw, again_a, again_b, what, *ln):
    f = tw.fields[0].name
    a, b = again_a(), again_b()
    for n in range(40):
        if a.kind == b.kind or not (sampled(a) or sampled(b)):
            break
        a, b = again_a(), again_b()
    c.evaluate((ln, "r"))
    rec.event("read")
    if b.kind == "ok":
        if a.kind != "ok":
            c.fail(f"{what}: the field accepts the data but the transparent class {a!r}", *ln)
        if type(a.v) is not c.ns[w.name]:
            c.fail(f"{what}: gave a {type(a.v).__name__}", *ln)
        if not same(getattr(a.v, f), getattr(b.v, f)):
            c.fail(f"{what}: the field would hold {short(getattr(b.v, f))}, the transparent class holds {short(getattr(a.v, f))}", *ln)
        rec.event("built")
    else:
        rec.event("refused")
        if a.kind == "ok":
            c.fail(f"{what}: the field refuses the data ({b!r}) but the transparent class {a!r}", *ln)
        if b.kind == "serde" and a.kind != "serde":
            c.fail(f"{what}: expected SerdeError but it {a!r}", *ln)


def reading(c, rec, r, w, tw, v):
    name = tw.fields[0].name
    base = []
    for named in (True, False):
        out = call(serde.to_dict if named else serde.to_tuple, v, reuse_instances=False, convert_sets=True)
        if out.kind == "ok":
            base.append((named, out.v))
    keys = ["x", "a", "other", "type"] + [f.name for f in w.all_fields()]
    for _ in range(6):
        named = r.random() < 0.75
        same_form = [d for nm, d in base if nm == named]
        if same_form and r.random() < 0.75:
            d = same_form[0]
            if r.random() < 0.7:
                d = mutate(r, d, keys, None)
        else:
            d = wild(r, keys, 2)
        kw = {}
        if r.random() < 0.3:
            kw["reuse_instances"] = r.choice([True, False])
        fn = serde.from_dict if named else serde.from_tuple
        ln = (f"d, kw = {lit(d)}, {kw}", f"print({fn.__name__}({w.name}, d, **kw))",
              f"print({fn.__name__}({tw.name}, {'{' + repr(name) + ': d}' if named else '(d,)'}, **kw))")
        compare(c, rec, w, tw, lambda: call(fn, c.ns[w.name], d, **kw),
                lambda: call(fn, c.ns[tw.name], {name: d} if named else (d,), **kw), fn.__name__, *ln)
        c.ns["LOG"].clear()
        a = call(fn, c.ns[w.name], d, **kw)
        log = list(c.ns["LOG"])
        if a.kind == "ok" and log.count(w.name) < 1:
            c.fail(f"{fn.__name__} did not construct the transparent class", *ln)
        # the same data inside a list of the class
        if r.random() < 0.4:
            x = call(fn, list[c.ns[w.name]], [d], **kw)
            if not (sampled(x) or sampled(a)) and ((x.kind == "ok") != (a.kind == "ok") or (a.kind == "ok" and not same(x.v, [a.v]))):
                c.fail(f"{fn.__name__} of a list of the class {x!r}, of the class {a!r}", *ln)


def model(c, rec, r, cl, v):
    t = ClsT(cl)
    kw = {}
    if r.random() < 0.3:
        kw["reuse_instances"] = r.choice([True, False])
    if r.random() < 0.3:
        kw["convert_sets"] = r.choice([True, False])
    named = r.random() < 0.7
    fn = serde.to_dict if named else serde.to_tuple
    o = Opts(named=named, reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets"))
    c.must(expect(t.ser, v, o), call(fn, v, **kw), fn.__name__, f"v = {lit(v)}", f"print({fn.__name__}(v, **{kw}))", order=True)
    e = expect(t.ser, v, Opts(named=named, reuse=False, sets=True))
    fr = serde.from_dict if named else serde.from_tuple
    if e.kind == "ok":
        c.must(expect(t.de, e.v, Opts(named=named)), call(fr, c.ns[cl.name], e.v), fr.__name__, f"d = {lit(e.v)}",
               f"print({fr.__name__}({cl.name}, d))")
    if not cl.transparent:
        return
    # a tagged union of the class and a plain one
    if nullable(t):
        return
    inner = cl.transparent_field().ty
    tag = r.choice([("external",), ("adjacent", "t", "c")])
    u = UnionT([t, Int()]) if inner.kind not in ("int", "float", "bool", "any", "union", "opt") else UnionT([t, Str()])
    e = expect(u.ser, v, Opts(reuse=False, sets=True, tagging=tag))
    typ = eval(u.src(), c.ns)
    from lib.spec import tag_src
    src = tag_src(tag, u.src())
    ut = eval(src, c.ns)
    rec.event("union_member")
    out = call(serde.to_dict, v, c=ut, reuse_instances=False, convert_sets=True)
    c.must(e, out, "to_dict of a union", f"v = {lit(v)}", f"print(to_dict(v, c={src}, reuse_instances=False, convert_sets=True))")
    if e.kind == "ok":
        c.must(expect(u.de, e.v, Opts(tagging=tag)), call(serde.from_dict, ut, e.v), "from_dict of a union",
               f"print(from_dict({src}, {lit(e.v)}))")


def declaration(r, rec):
    """Whether the class is refused at declaration."""
    from lib.spec import Program
    fs, cands, bad = [], 0, False
    for n in range(r.choice([0, 1, 1, 2, 2, 3])):
        init = r.random() < 0.65
        skip = r.choice([None, None, "skip", "both"])
        f = Fld(f"f{n}", r.choice([Int, Str])(), init=init)
        f.default = 1 if isinstance(f.ty, Int) else "d"
        if skip == "skip":
            f.skip = True
        elif skip == "both":
            f.skip_ser = f.skip_de = True
        if r.random() < 0.2:
            f.rename = f"r{n}"
        if init and not skip:
            cands += 1
        elif init or not skip:
            bad = True
        fs.append(f)
    if r.random() < 0.15:
        fs.append(Fld("CV", Int(), default=3, classvar=True))
    good = cands == 1 and not bad
    cl = Cls("Foo", fs, transparent=True, decorator=r.choice(["serde", "serde", "both"]))
    if r.random() < 0.25 and len(fs) > 1:
        base = Cls("Base", fs[:1], decorator=r.choice(["plain", "serde"]))
        cl.fields, cl.bases = fs[1:], [base]
        decls = [base, cl]
    else:
        decls = [cl]
    prog = Program(decls)
    src = prog.source()
    rec.evaluate((src, "decl"))
    try:
        prog.load()
    except SerdeError:
        rec.event("declarations_refused")
        if good:
            rec.violation("a transparent class with a unique field was refused at declaration", src)
        return
    except Exception as e:
        rec.violation(f"declaring a transparent class raised {type(e).__name__}: {e}", src)
    try:
        rec.event("declarations_accepted")
        if not good:
            rec.violation("a transparent class without a unique field was accepted at declaration", src)
        f = [f for f in fs if f.init and not f.skip and not f.skip_ser and not f.classvar][0]
        val = 7 if isinstance(f.ty, Int) else "seven"
        py = prog.module.Foo
        w = serde.to_dict(py(**{f.name: val}))
        if not same(w, val):
            rec.violation(f"to_dict gave {w!r}", src + f"from serde import *\nprint(to_dict(Foo({f.name}={val!r})))\n")
        v = serde.from_dict(py, val)
        if type(v) is not py or not same(getattr(v, f.name), val):
            rec.violation(f"from_dict gave {v!r}", src + f"from serde import *\nprint(from_dict(Foo, {val!r}))\n")
    finally:
        prog.unload()


def generic(r, rec):
    """A generic transparent class is its argument."""
    from lib.spec import Program
    pg = PG(r, depth=1, transparent=0.0, max_fields=3, unions=False, any=False)
    pg.cls()
    w = Cls("TBox", [Fld("value", r.choice([lambda: TVar("T"), lambda: ListT(TVar("T")), lambda: DictT(Str(), TVar("T")),
                                           lambda: OptT(TVar("T"))])())], tvars=["T"], transparent=True, pep695=r.random() < 0.3)
    arg = r.choice([lambda: pg.ty(1), lambda: ClsT(pg.classes[0]), Int, Str])()
    if nullable(arg):
        arg = Int()
    user = Cls("TUser", [Fld("a", ClsT(w, [arg])), Fld("b", ListT(ClsT(w, [arg])))])
    prog = Program(pg.decls + [w, user], header="T = _t.TypeVar('T')\n")
    rec.event("generic")
    with Case(rec, prog) as c:
        g = Gen(r, c.ns)
        for t in (ClsT(w, [arg]), ClsT(user)):
            for x in t.walk():
                if not hasattr(x, "mod"):
                    x.mod = c.ns
            v = c.value(t, g)
            ln = f"v = {lit(v)}"
            named = r.random() < 0.7
            fn, fr = (serde.to_dict, serde.from_dict) if named else (serde.to_tuple, serde.from_tuple)
            c.must(expect(t.ser, v, Opts(named=named)), call(fn, v), fn.__name__, ln, f"print({fn.__name__}(v))", order=True)
            e = expect(t.ser, v, Opts(named=named, reuse=False, sets=True))
            if e.kind == "ok":
                typ = eval(t.src(), c.ns)
                c.must(expect(t.de, e.v, Opts(named=named)), call(fr, typ, e.v), fr.__name__, f"print({fr.__name__}({t.src()}, {lit(e.v)}))")
