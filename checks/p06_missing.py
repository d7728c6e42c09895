"""P06: absent keys take the default, a new factory value, None or fail; present keys are always used."""
import dataclasses

import serde

from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (AnyT, Bool, ClsT, DictT, Fld, Float, Int, ListT, ModelError, NoneT, OptT, Opts, SetT, Str, TupleT, Unknown, VarTupleT,
                      lit, same)

PROP = "P06"
BUDGET = {"quick": 4000, "thorough": 80000}
CHUNK = 50
RULE = "distinct (program, input with some keys absent) whose outcome was compared"
MIN = {"evaluations": 17000, "distinct": 13000, "accepts": 12000, "rejects": 3600, "factory_fresh": 6200, "named": 430, "falsy": 5800}

MUT = (list, dict, set)


def extra(r, c, k):
    """Fields whose default matters: falsy, equal to the type's zero, mutable, positional."""
    nm = f"x{k}_{r.choice('abc')}"
    t, d = r.choice([
        (Int(), 0), (Int(), 5), (Str(), ""), (Str(), "dflt"), (Bool(), False), (Bool(), True), (Float(), 0.0), (Float(), -0.0),
        (OptT(Int()), None), (OptT(Int()), 7), (OptT(Str()), ""), (ListT(Int()), "list"), (DictT(Str(), Int()), "dict"),
        (SetT(Int()), "set"), (ListT(ListT(Int())), "lambda: [[1]]"), (DictT(Str(), ListT(Int())), "lambda: {'k': [1]}"),
        (VarTupleT(Int()), ()), (TupleT([Int(), Str()]), (1, "z")), (OptT(ListT(Int())), "list"), (AnyT(), 0), (AnyT(), "dict"),
        (OptT(DictT(Str(), Int())), "lambda: {'k': 0}"), (Str(), "lambda: 'made'"), (Int(), "lambda: 3")])
    f = Fld(nm, t)
    if isinstance(d, str) and (d in ("list", "dict", "set") or d.startswith("lambda")):
        f.factory = d
    else:
        f.default = d
    if r.random() < 0.3 and c.decorator != "plain":
        f.rename = f"X-{k}"
    return f


def case(r, rec, i, cfg):
    pg = PG(r, depth=r.choice([1, 1, 2, 3]), defaults=0.6, alias=0.15, rename=0.15, inherit=0.2, max_fields=5, ncls=(1, 3))
    prog = pg.program()
    for c in cls_nodes(prog):
        if not c.transparent and not any(c in [getattr(b, "cls", b) for b in o.bases] for o in cls_nodes(prog)) and r.random() < 0.6:
            taken = {f.name for f in c.all_fields()}
            for k in range(r.randint(1, 3)):
                f = extra(r, c, k)
                if f.name not in taken:
                    c.fields.append(f)
                    taken.add(f.name)
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.1)
        for cl in cls_nodes(prog)[::-1][:2]:
            if cl.transparent:
                continue
            t = ClsT(cl)
            v = c.value(t, g)
            try:
                w = t.ser(v, Opts(reuse=False, sets=True))
            except (ModelError, Unknown):
                rec.skip("form not determined")
                continue
            for _ in range(5):
                drop(c, rec, r, cl, t, w)


def drop(c, rec, r, cl, t, w):
    data = dict(w)
    fields = cl.de_fields()
    req = [f for f in fields if not f.has_default() and not isinstance(f.ty, (OptT, NoneT))]
    p = r.choice([0.2, 0.5, 0.9])
    keep_req = r.random() < 0.6
    for f in fields:
        if r.random() < p and not (keep_req and f in req):
            data.pop(cl.wire_name(f), None)
        elif r.random() < 0.25:
            z = zero(f.ty)
            if z is not None:
                data[cl.wire_name(f)] = z[0]
                rec.event("falsy")
        if f.alias and cl.wire_name(f) in data and r.random() < 0.4:
            data[r.choice(f.alias)] = data.pop(cl.wire_name(f))
    typ = c.ns[cl.name]
    ln = (f"d = {lit(data)}", f"print(from_dict({cl.name}, d))")
    exp = expect(t.de, data, Opts())
    out = call(serde.from_dict, typ, data)
    c.must(exp, out, "from_dict", *ln)
    if exp.kind == "reject" and out.kind == "serde":
        # the first field whose key is absent is what the message is about
        missing = [f for f in req if not (set(cl.de_keys(f)) & set(data))]
        if missing and all(isinstance(f.ty, (Int, Str, Bool, Float)) for f in fields if f not in missing):
            rec.event("named")
            if not any(f.name in str(out.exc) or cl.wire_name(f) in str(out.exc) for f in missing):
                c.fail(f"the error for the missing field(s) {[f.name for f in missing]} does not name one: {out.exc}", *ln)
    if exp.kind == "ok" and out.kind == "ok":
        b = call(serde.from_dict, typ, data)
        if b.kind != "ok" or not same(out.v, b.v):
            c.fail(f"a second from_dict with the same input gave something else: {b!r}", *ln)
        for f in fields:
            if f.factory and not (set(cl.de_keys(f)) & set(data)):
                x, y = getattr(out.v, f.name), getattr(b.v, f.name)
                rec.event("factory_fresh")
                if isinstance(x, MUT) and x is y:
                    c.fail(f"two objects share the value of the default factory of {f.name}", *ln)
                if isinstance(x, MUT):
                    poke(x)
                    z = call(serde.from_dict, typ, data)
                    if z.kind != "ok" or not same(z.v, b.v):
                        c.fail(f"changing the default value of one object changed a later one ({f.name}): {z!r}", *ln)


def poke(x):
    if isinstance(x, list):
        for y in x:
            if isinstance(y, MUT):
                poke(y)
        x.append("poked")
    elif isinstance(x, dict):
        for y in x.values():
            if isinstance(y, MUT):
                poke(y)
        x["poked"] = "poked"
    else:
        x.add("poked")


def zero(t):
    if isinstance(t, OptT):
        return (None,)
    return {"int": (0,), "str": ("",), "bool": (False,), "float": (0.0,)}.get(t.src()) or \
        (([],) if isinstance(t, (ListT, SetT)) else ({},) if type(t) is DictT else None)
