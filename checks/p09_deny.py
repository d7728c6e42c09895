"""P09: deny_unknown_fields rejects exactly the unknown keys, for the class that declares it only."""
import serde

from checks.p08_flatten import make, unique
from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (Alias, ClsT, DictT, Int, ListT, ModelError, OptT, Opts, Str, TupleT, UnionT, Unknown, gen_plain, lit, same)

PROP = "P09"
BUDGET = {"quick": 5500, "thorough": 130000}
CHUNK = 50
RULE = "distinct (program, mapping with known, alias, foreign and missing keys) whose acceptance was compared"
MIN = {"evaluations": 39000, "distinct": 34000, "accepts": 28000, "rejects": 8900, "denied": 11000, "ignored": 14000, "alias_used": 7400,
       "nested": 10000}

EXTRA = ["zz", "extra", "A", "a", "b", "x", "value", "Data", "foo_bar", "fooBar", "FooBar", "", " ", "None", "日本", "id ", "cls", "data",
         "__tag", "self", "al1", "al 3", "0", "type", "key", "\n", "'", '"']


def deny_some(r, pg, c):
    c.deny = r.random() < 0.6


def case(r, rec, i, cfg):
    if r.random() < 0.25:
        prog, lv = make(r, rec)
        for c in lv:
            if c.decorator != "plain":
                c.deny = r.random() < 0.5
        tops = [lv[-1]]
        if not unique(lv[-1]):
            rec.skip("keys collide")
            return
    else:
        pg = PG(r, depth=r.choice([1, 2, 2, 3]), deny=0.55, alias=0.3, rename=0.3, rename_all=0.3, inherit=0.25, defaults=0.5,
                transparent=0.05, max_fields=4, ncls=(2, 4), plain=0.15, skip=0.0)
        prog = pg.program()
        for c in cls_nodes(prog):
            for f in c.fields:
                if c.decorator != "plain" and not c.transparent and f.has_default() and r.random() < 0.1:
                    k = r.choice(["skip", "skip_de"])
                    setattr(f, k, True)
        tops = cls_nodes(prog)[::-1][:2]
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.2)
        for cl in tops:
            base = ClsT(cl)
            top = base
            if r.random() < 0.2:
                top = r.choice([ListT(base), DictT(Str(), base), base if nullable(base) else OptT(base), TupleT([base])])
            typ = eval(top.src(), c.ns)
            v = c.value(top, g)
            try:
                w = top.ser(v, Opts(reuse=False, sets=True))
            except (ModelError, Unknown):
                rec.skip("form not determined")
                continue
            sites = []
            plan(top, w, sites)
            for _ in range(7):
                one(c, rec, r, top, typ, w, cl, sites)


def plan(t, w, out, path=()):
    """Every place in the data that is a mapping read by a class: (path, class)."""
    if isinstance(t, ClsT) and t.cls.transparent:
        return plan(t.cls.transparent_field().ty, w, out, path)
    if isinstance(t, ClsT) and isinstance(w, dict):
        out.append((path, t.cls))
        for f in t.cls.de_fields():
            if f.flatten:
                continue
            k = t.cls.wire_name(f)
            if k in w:
                plan(f.ty, w[k], out, path + (k,))
    elif isinstance(t, Alias):
        plan(t.el, w, out, path)
    elif isinstance(t, OptT) and w is not None:
        plan(t.el, w, out, path)
    elif isinstance(t, DictT) and isinstance(w, dict):
        for k, x in w.items():
            plan(t.v, x, out, path + (k,))
    elif isinstance(t, TupleT):
        for n, e in enumerate(t.els):
            plan(e, w[n], out, path + (n,))
    elif hasattr(t, "el") and isinstance(w, (list, tuple)):
        for n, x in enumerate(w):
            plan(t.el, x, out, path + (n,))


def at(w, path, fn):
    if not path:
        return fn(w)
    k = path[0]
    if isinstance(w, dict):
        return {q: (at(x, path[1:], fn) if q == k else x) for q, x in w.items()}
    return type(w)(at(x, path[1:], fn) if n == k else x for n, x in enumerate(w))


def one(c, rec, r, top, typ, w, cl, sites):
    data = w
    for path, k in r.sample(sites, min(len(sites), r.choice([1, 1, 1, 2]))):
        def edit(d):
            d = dict(d)
            for f in k.de_fields():
                kk = k.wire_name(f)
                if f.flatten or kk not in d:
                    continue
                if f.alias and r.random() < 0.4:
                    d[r.choice(f.alias)] = d.pop(kk)
                    rec.event("alias_used")
                elif (f.has_default() or isinstance(f.ty, OptT)) and r.random() < 0.2:
                    del d[kk]
            if r.random() < 0.6:
                names = list(EXTRA) + [f.name for f in k.all_fields()] + [f.name for o in cls_nodes(c.prog) for f in o.all_fields()] \
                    + [o.wire_name(f) for o in cls_nodes(c.prog) for f in o.all_fields()]
                for _ in range(r.choice([1, 1, 2])):
                    x = r.choice(names)
                    if r.random() < 0.1:
                        x = r.choice([x + "_", x.upper(), x.swapcase(), x[:-1], " " + x])
                    if x not in d and x not in k.accepted():
                        d[x] = None if r.random() < 0.3 else 0 if r.random() < 0.2 else r.choice([1, "s", [], {}, {"a": 1}, [1]])
                        rec.event("denied" if k.deny else "ignored")
                        if path:
                            rec.event("nested")
            items = list(d.items())
            r.shuffle(items)
            return dict(items)
        data = at(data, path, edit)
    exp = expect(top.de, data, Opts())
    ln = (f"d = {lit(data)}", f"print(from_dict({top.src()}, d))")
    c.must(exp, call(serde.from_dict, typ, data), "from_dict", *ln)
    if r.random() < 0.1 and exp.kind != "unknown":
        fmt = r.choice(["json", "msgpack", "yaml", "toml"])
        try:
            doc = formats.dumps(fmt, data)
            ext = formats.loads(fmt, doc)
        except Exception:
            return
        fr = f"from_{fmt}"
        c.must(expect(top.de, ext, formats.de_opts(fmt)), call(getattr(FMT[fmt], fr), typ, doc), fr, *ln[:1],
               f"print({fr}({top.src()}, {lit(doc)}))")
