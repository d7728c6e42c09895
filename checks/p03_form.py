"""P03: to_dict/to_tuple give exactly the documented form, in declaration order."""
import serde

from lib.gen import Gen, PG, nullable
from lib.oracle import Case, call, cls_nodes, expect, opts_src
from lib.spec import ClsT, DequeT, DictT, Fld, Int, ListT, NoneT, OptT, Opts, SetT, Str, TupleT, VarTupleT, lit

PROP = "P03"
BUDGET = {"quick": 5000, "thorough": 90000}
CHUNK = 50
RULE = "distinct (program, value, options) whose serialized form was compared with the reference form"
MIN = {"evaluations": 10000, "distinct": 9800, "accepts": 10000}

TRI = [None, True, False]


def opts(r):
    kw = {}
    for k in ("reuse_instances", "convert_sets"):
        x = r.choice(TRI)
        if x is not None:
            kw[k] = x
    return kw


def case(r, rec, i, cfg):
    pg = PG(r, depth=r.choice([1, 2, 3, 4]), inherit=0.3, max_fields=7, untagged=True,
            taggings=("external", "internal", "adjacent", "untagged"))
    prog = pg.program()
    if r.random() < 0.15:
        for c in cls_nodes(prog):
            if not c.transparent and c.decorator == "serde" and not c.slots:
                n = "CV" + c.name
                c.fields.append(Fld(n, Int(), default=r.randint(0, 99), classvar=True))
                c.class_var = r.random() < 0.7
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, nasty_floats=True)
        for cl in cls_nodes(prog)[::-1][:3]:
            base = ClsT(cl)
            for _ in range(2):
                top = base
                if r.random() < 0.25:
                    top = r.choice([ListT(base), DictT(Str(), base), TupleT([base, Str()]), DequeT(base),
                                    base if nullable(base) else OptT(base), VarTupleT(base)])
                v = c.value(top, g)
                kw = opts(r)
                tup = r.random() < 0.4
                fn = "to_tuple" if tup else "to_dict"
                if not kw and not tup and top is base and r.random() < 0.1:
                    fn, kw2 = "asdict", dict(reuse_instances=False, convert_sets=False)
                elif not kw and tup and top is base and r.random() < 0.1:
                    fn, kw2 = "astuple", dict(reuse_instances=False, convert_sets=False)
                else:
                    kw2 = kw
                o = Opts(named=not tup, reuse=kw2.get("reuse_instances"), sets=kw2.get("convert_sets"))
                c.lines = [f"v = {lit(v)}"]
                if fn in ("asdict", "astuple"):
                    c.lines.append(f"from serde import {fn}")
                f = getattr(serde, fn, None) or getattr(serde.se, fn)
                c.must(expect(top.ser, v, o), call(f, v, **kw), fn, f"print({fn}(v{opts_src(kw)}))", order=True)
                rec.event(fn)
