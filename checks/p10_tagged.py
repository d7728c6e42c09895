"""P10: tagged unions write the documented layout and read back exactly the tagged member."""
import serde

from lib import formats
from lib.gen import Gen, PG, TAGS
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (Cls, ClsT, DequeT, DictT, Fld, Float, Int, ListT, ModelError, NoneT, OptT, Opts, SetT, Str, TupleT, UnionT, Unknown,
                      VarTupleT, lit, same, tag_src)

PROP = "P10"
BUDGET = {"quick": 2200, "thorough": 110000}
CHUNK = 50
RULE = "distinct (program, tagging, value or tagged input) whose layout or chosen member was compared"
MIN = {"evaluations": 50000, "distinct": 39000, "accepts": 26000, "rejects": 16000, "external": 680, "internal": 450, "adjacent": 470,
       "direct": 4300, "other_member": 12000, "bad_tag": 17000, "twins": 600}
EXOTIC = ["Data", "type", "Tag", "T", "A_B", "Union", "Any", "Foo"]


def members(r, pg, rec):
    """Classes that are hard to tell apart by content."""
    cs = []
    style = r.choice(["twins", "overlap", "free", "derived", "twins", "overlap", "free", "derived", "transparent"])
    n = r.choice([2, 2, 3, 4])
    if style == "twins":
        shape = [(nm, pg.ty(1)) for nm in pg.field_names(r.randint(0, 3))]
        for _ in range(n):
            cs.append(pg.cls(fields=[Fld(a, t) for a, t in shape]))
        rec.event("twins")
    elif style == "overlap":
        names = pg.field_names(4)
        for k in range(n):
            fs = [Fld(a, r.choice([Int, Str, Float])()) for a in names[:r.randint(1, 4)]]
            if r.random() < 0.5:
                for f in fs:
                    pg.add_default(f)
            cs.append(pg.cls(fields=fs))
        rec.event("twins")
    elif style == "derived":
        a = pg.cls(fields=[Fld("base_a", Int())], decorator="serde", frozen=False, kw_only=False)
        cs.append(a)
        for k in range(n - 1):
            b = r.choice(cs)
            fs = [] if r.random() < 0.3 else [Fld(f"own_{k}", pg.ty(1))]
            d = pg.cls(fields=fs, decorator="serde", frozen=False, kw_only=False)
            d.bases = [b]
            cs.append(d)
        r.shuffle(cs)
        rec.event("derived")
    elif style == "transparent":
        # the members are written as their only field, under the tag all the same
        t = pg.ty(1)
        for k in range(n):
            tr = k < 2 or r.random() < 0.5
            cs.append(pg.cls(fields=[Fld(pg.field_names(1)[0], t if r.random() < 0.8 else pg.ty(1))], decorator="serde", transparent=tr))
            if tr:
                cs[-1].rename_all, cs[-1].deny = None, False
        rec.event("transparent")
        return cs
    else:
        for _ in range(n):
            cs.append(pg.cls())
    if style != "derived" and r.random() < 0.4:
        c = r.choice(cs)
        c.rename_all = None
        pg.fix_names(c)
    return [c for c in cs if not c.transparent]


def other(r, u):
    """A non-dataclass member that cannot be mistaken for a tagged object."""
    return r.choice([Int(), Str(), Float(), ListT(Int()), NoneT(), TupleT([Str(), Int()]), ListT(Str())])


def union(r, cs):
    els = [ClsT(c) for c in r.sample(cs, r.randint(1, len(cs)))]
    if len(els) < 2 or r.random() < 0.35:
        o = other(r, els)
        if len(els) >= 2 or not isinstance(o, NoneT):
            els.append(o)
    if len(els) < 2:
        els.append(Int())
    r.shuffle(els)
    if len(els) == 2 and any(isinstance(e, NoneT) for e in els):
        return OptT([e for e in els if not isinstance(e, NoneT)][0])
    return UnionT(els, "pipe" if r.random() < 0.3 else "union")


def wrap(r, u):
    k = r.random()
    if k < 0.45:
        return u
    el = u if not isinstance(u, OptT) else u
    o = r.choice(["list", "dict", "tuple", "opt", "deque", "vt", "ll", "ld"])
    if o == "list":
        return ListT(el)
    if o == "dict":
        return DictT(Str(), el)
    if o == "tuple":
        return TupleT([el, Int()])
    if o == "deque":
        return DequeT(el)
    if o == "vt":
        return VarTupleT(el)
    if o == "ll":
        return ListT(ListT(el))
    if o == "ld":
        return ListT(DictT(Str(), el))
    if isinstance(u, OptT) or any(isinstance(e, NoneT) for e in u.els):
        return u
    return OptT(u)


def tagging(r):
    t = r.choice(["external", "external", "internal", "internal", "adjacent", "adjacent", None])
    names = TAGS + ["type", "kind", "c", "日本", "'", "{x}", "\\", "a.b"]
    if t == "internal":
        return ("internal", r.choice(names))
    if t == "adjacent":
        return ("adjacent", *r.sample(names, 2))
    return ("external",) if t else None


def clash(u, t):
    """An internal tag that is also the key of a field has no defined layout."""
    if not t or t[0] != "internal":
        return False
    for n in u.walk():
        if isinstance(n, ClsT) and n.cls.transparent:
            return True
        if isinstance(n, ClsT) and (t[1] in n.cls.accepted() or any(f.flatten for f in n.cls.all_fields())):
            return True
    return False


def case(r, rec, i, cfg):
    pg = PG(r, depth=2, taggings=("external", "internal", "adjacent"), inherit=0.1, transparent=0.0, max_fields=3, rename=0.2,
            rename_all=0.25, unions=False, any=False, deny=0.1, class_names=None)
    if r.random() < 0.15:
        pg.names = r.sample(EXOTIC, len(EXOTIC)) + pg.names
    if r.random() < 0.5:
        pg.cls()
    cs = members(r, pg, rec)
    if len(cs) < 2:
        rec.skip("no union")
        return
    us, holders = [], []
    for _ in range(r.choice([1, 1, 2])):
        t = tagging(r)
        fs = []
        for k in range(r.choice([1, 2, 3])):
            u = union(r, cs)
            if clash(u, t):
                continue
            us.append(u)
            fs.append(Fld(f"u{k}", wrap(r, u)))
        if fs:
            h = pg.cls(fields=fs, decorator=r.choice(["serde", "serde", "both"]))
            h.tagging = t
            holders.append(h)
            # reversed order in the same class
            if isinstance(us[-1], UnionT) and r.random() < 0.3:
                h.fields.append(Fld("rev", UnionT(us[-1].els[::-1])))
                if h.kw_only is False:
                    h.fields.sort(key=lambda f: f.has_default())
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        for h in holders:
            rec.event((h.tagging or ("external",))[0])
            for _ in range(3):
                try:
                    v = c.value(ClsT(h), g)
                    probe(c, rec, r, ClsT(h), eval(h.name, c.ns), None, v, cs)
                except Unknown:
                    rec.skip("form not determined")
        for u in us[:2]:
            t = tagging(r)
            if not isinstance(u, UnionT) or clash(u, t):
                continue
            for _ in range(2):
                rec.event("direct")
                v = c.value(u, g)
                typ = u.src() if t is None else tag_src(t, u.src())
                probe(c, rec, r, u, eval(typ, c.ns), (typ, t), v, cs)


def probe(c, rec, r, top, typ, direct, v, cs):
    o = Opts(reuse=r.choice([True, False]), sets=r.choice([True, False]))
    kw = dict(reuse_instances=o.reuse, convert_sets=o.sets)
    src = top.src()
    if direct:
        src, o.tagging = direct
        kw["c"] = typ
    c.lines = [f"v = {lit(v)}"]
    exp = expect(top.ser, v, o)
    ks = f", reuse_instances={o.reuse}, convert_sets={o.sets}" + (f", c={src}" if direct else "")
    c.must(exp, call(serde.to_dict, v, **kw), "to_dict", f"print(to_dict(v{ks}))", order=not direct and False)
    if exp.kind != "ok":
        return
    w = exp.v
    do = Opts(reuse=o.reuse, tagging=o.tagging)
    dl = lambda d: (f"d = {lit(d)}", f"print(from_dict({src}, d, reuse_instances={o.reuse}))")
    de = expect(top.de, w, do)
    c.must(de, call(serde.from_dict, typ, w, reuse_instances=o.reuse), "from_dict", *dl(w))
    # the exact class must come back: no other member is acceptable, whatever the model says about the content
    back = call(serde.from_dict, typ, w, reuse_instances=o.reuse)
    if back.kind == "ok" and shape(back.v) != shape(v):
        c.fail(f"from_dict(to_dict(v)) holds other classes than v: {back!r}", *dl(w))
    sites = []
    find(top, w, o.tagging or ("external",), sites, ())
    for _ in range(4):
        if not sites:
            break
        path, u, t = r.choice(sites)
        w2 = swap(r, rec, w, path, u, t, cs, c)
        if w2 is None:
            continue
        c.must(expect(top.de, w2, do), call(serde.from_dict, typ, w2, reuse_instances=o.reuse), "from_dict", *dl(w2))
    if r.random() < 0.3:
        fmt = r.choice(["json", "yaml", "msgpack", "toml", "pickle"])
        fo = formats.ser_opts(fmt)
        fo.tagging = o.tagging
        w = expect(top.ser, v, fo)
        if w.kind != "ok":
            return
        try:
            ext = formats.loads(fmt, formats.dumps(fmt, w.v))
        except Exception:
            return
        to, fr, _ = formats.names(fmt)
        do = formats.de_opts(fmt)
        do.tagging = o.tagging
        ck = dict(cls=typ) if direct else {}
        doc = c.ok(call(getattr(FMT[fmt], to), v, **ck), to, f"print({to}(v{', cls=' + src if direct else ''}))")
        got = formats.norm(formats.loads(fmt, doc))
        if not same(got, formats.norm(ext)):
            c.fail(f"{to} wrote {lit(got)} instead of {lit(ext)}", f"print({to}(v{', cls=' + src if direct else ''}))")
        c.must(expect(top.de, ext, do), call(getattr(FMT[fmt], fr), typ, doc), fr, f"d = {lit(doc)}", f"print({fr}({src}, d))")


def shape(v):
    if hasattr(v, "__dataclass_fields__"):
        return (type(v).__qualname__, [shape(getattr(v, f)) for f in v.__dataclass_fields__ if hasattr(v, f)])
    if isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
        return [shape(x) for x in v]
    if isinstance(v, dict):
        return {k: shape(x) for k, x in v.items()} if all(isinstance(k, str) for k in v) else None
    return None


def find(t, w, tag, out, path):
    """Where tagged objects are in the data: (path, union, tagging)."""
    if isinstance(t, ClsT):
        if t.cls.transparent or not isinstance(w, dict):
            return
        tg = (t.cls.tagging or ("external",)) if t.cls.decorator != "plain" else ("external",)
        for f in t.cls.de_fields():
            k = t.cls.wire_name(f)
            if not f.flatten and k in w:
                find(f.ty, w[k], tg, out, path + (k,))
    elif isinstance(t, UnionT):
        if isinstance(w, dict):
            out.append((path, t, tag))
    elif isinstance(t, OptT):
        if w is not None:
            find(t.el, w, tag, out, path)
    elif isinstance(t, DictT):
        if isinstance(w, dict) and isinstance(t.k, Str):
            for k, x in w.items():
                find(t.v, x, tag, out, path + (k,))
    elif isinstance(t, TupleT):
        for n, e in enumerate(t.els):
            find(e, w[n], tag, out, path + (n,))
    elif isinstance(t, (ListT, DequeT, VarTupleT)):
        for n, x in enumerate(w):
            find(t.el, x, tag, out, path + (n,))


def swap(r, rec, w, path, u, t, cs, c):
    from checks.p09_deny import at
    names = [e.cls.name for e in u.els if isinstance(e, ClsT)]
    bad = [x.name for x in cs if x.name not in names] + ["", "Nope", names[0].lower(), names[0] + "_", " " + names[0], "Union", "None"]
    k = r.random()
    if k < 0.4:
        new = r.choice(names)
        rec.event("other_member")
    else:
        new = r.choice(bad)
        rec.event("bad_tag")

    def ed(d):
        if t[0] == "external":
            if len(d) != 1:
                return d
            (inner,) = d.values()
            if k > 0.92:
                return r.choice([{}, inner, [inner], None, names[0], {new: None}, {new: [inner]}, 5])
            return {new: inner}
        d = dict(d)
        if k > 0.92 and t[0] == "adjacent":
            x = r.choice([0, 1, 2])
            if x == 0:
                d.pop(t[2], None)
            elif x == 1:
                return d.get(t[2])
            else:
                d[t[2]] = None
            return d
        if 0.8 < k:
            d.pop(t[1], None)
        elif 0.7 < k:
            d[t[1]] = r.choice([None, 0, True, [], {}, [names[0]], {names[0]: 1}])
        else:
            d[t[1]] = new
        return d
    return at(w, path, ed)
