"""P01: from_dict(to_dict(v)) == v and from_tuple(to_tuple(v)) == v, types included."""
import serde

from lib.gen import Gen, PG, nullable
from lib.oracle import Case, call, cls_nodes, opts_src
from lib.spec import ClsT, DictT, ListT, OptT, Str, TupleT, VarTupleT, lit, same

PROP = "P01"
BUDGET = {"quick": 3000, "thorough": 40000}
CHUNK = 50
RULE = "distinct (program, value, options) whose round trip was compared"
MIN = {"evaluations": 6600, "distinct": 6600}

TRI = [None, True, False]


def case(r, rec, i, cfg):
    depth = r.choice([1, 2, 3, 3, 4])
    pg = PG(r, depth=depth, untagged=False)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, nasty_floats=r.random() < 0.2)
        for cl in cls_nodes(prog)[::-1][:3]:
            base = ClsT(cl)
            top = base
            if r.random() < 0.3:
                top = r.choice([ListT(base), DictT(Str(), base), TupleT([base, Str()]),
                                base if nullable(base) else OptT(base), VarTupleT(base)])
            for _ in range(2):
                v = c.value(top, g)
                kw = {}
                x = r.choice(TRI)
                if x is not None:
                    kw["reuse_instances"] = x
                y = r.choice(TRI)
                if y is not None:
                    kw["convert_sets"] = y
                tup = r.random() < 0.4
                dekw = {}
                if kw.get("reuse_instances") or ("reuse_instances" in kw and r.random() < 0.5):
                    dekw["reuse_instances"] = kw["reuse_instances"]
                to, fr = ("to_tuple", "from_tuple") if tup else ("to_dict", "from_dict")
                typ = eval(top.src(), c.ns)
                lines = [f"v = {lit(v)}", f"w = {to}(v{opts_src(kw)})", f"print(w)",
                         f"print({fr}({top.src()}, w{opts_src(dekw)}))"]
                w = c.ok(call(getattr(serde, to), v, **kw), f"{to}", *lines)
                out = call(getattr(serde, fr), typ, w, **dekw)
                v2 = c.ok(out, f"{fr} of what {to} gave", *lines)
                c.evaluate(lines)
                rec.event(to)
                if not same(v, v2):
                    c.fail(f"{fr}({to}(v)) differs from v: {lit(v2)}", *lines)
