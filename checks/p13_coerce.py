"""P13: coerce converts by the declared type's constructor or fails; disabled leaves values alone; per class."""
import collections
import dataclasses

import serde

from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (Bool, ClsT, DequeT, DictT, Float, Int, ListT, ModelError, OptT, Opts, PrimSub, Str, TupleT, Unknown, VarTupleT,
                      coerce_prim, flat_cls, lit, same)

PROP = "P13"
BUDGET = {"quick": 4500, "thorough": 100000}
CHUNK = 50
RULE = "distinct (program, object or data with values of other primitive types) whose conversion was compared"
MIN = {"evaluations": 59000, "distinct": 57000, "accepts": 45000, "rejects": 6000, "twisted": 36000, "coerce_classes": 2200,
       "disabled_classes": 710}

PRIM = (Int, Float, Str, Bool)
POOL = [0, 1, -5, 10, 2**40, 1.5, -0.0, 3.0, 1e20, True, False, "10", "1.5", "true", "True", "", "abc", "0", "-3", " 7 ", "1_000", "1e3", "nan",
        "０", "False"]


def twist(t, v, r, rec, p, mode):
    """The value with primitives of other types in the places of primitives."""
    if type(t) in PRIM:
        if r.random() < p:
            rec.event("twisted")
            return None if r.random() < 0.06 else r.choice(POOL)
        return v
    if isinstance(t, OptT):
        return None if v is None else twist(t.el, v, r, rec, p, mode)
    if isinstance(t, ListT) and type(v) is list:
        return [twist(t.el, x, r, rec, p, mode) for x in v]
    if isinstance(t, VarTupleT) and type(v) is tuple:
        return tuple(twist(t.el, x, r, rec, p, mode) for x in v)
    if isinstance(t, TupleT) and type(v) is tuple:
        return tuple(twist(e, x, r, rec, p, mode) for e, x in zip(t.els, v))
    if isinstance(t, DequeT) and type(v) is collections.deque:
        return collections.deque(twist(t.el, x, r, rec, p, mode) for x in v)
    if type(t) is DictT and type(v) is dict:
        return {k: twist(t.v, x, r, rec, p, mode) for k, x in v.items()}
    if isinstance(t, ClsT):
        twist_obj(t.cls.for_value(v), v, r, rec, p)
    return v


def twist_obj(cl, v, r, rec, p=0.4):
    for f in cl.all_fields():
        if f.classvar or f.flatten:
            continue
        x = getattr(v, f.name)
        if cl.check == "strict" and cl.decorator != "plain" and not any(isinstance(k, ClsT) for k in f.ty.walk()):
            continue
        q = 0.0 if cl.check == "strict" and cl.decorator != "plain" else p
        y = twist(f.ty, x, r, rec, q, cl.check)
        if y is not x:
            object.__setattr__(v, f.name, y)


def case(r, rec, i, cfg):
    pg = PG(r, depth=r.choice([0, 1, 1, 2, 3]), check=("coerce", "coerce", "coerce", "disabled", "strict"), max_fields=4, ncls=(1, 3),
            prim_only=r.random() < 0.6, unions=r.random() < 0.3, plain=0.12, inherit=0.15, slots=0.05)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.2)
        for cl in cls_nodes(prog)[::-1][:2]:
            if cl.check == "coerce":
                rec.event("coerce_classes")
            if cl.check == "disabled":
                rec.event("disabled_classes")
            for _ in range(4):
                write(c, rec, r, cl, g)
            for _ in range(5):
                read(c, rec, r, cl, g)


def write(c, rec, r, cl, g):
    t = ClsT(cl)
    v = c.value(t, g)
    twist_obj(cl, v, r, rec, r.choice([0.1, 0.4]))
    try:
        ln = f"v = {lit(v)}"
    except Exception:
        rec.skip("no literal")
        return
    o = Opts(reuse=r.choice([True, False]), sets=r.choice([True, False]))
    kw = f", reuse_instances={o.reuse}, convert_sets={o.sets}"
    exp = expect(t.ser, v, o)
    c.must(exp, call(serde.to_dict, v, reuse_instances=o.reuse, convert_sets=o.sets), "to_dict", ln, f"print(to_dict(v{kw}))")
    if not any(f.flatten for d in cls_nodes(c.prog) for f in d.all_fields()):
        exp = expect(t.ser, v, o.w(named=False))
        c.must(exp, call(serde.to_tuple, v, reuse_instances=o.reuse, convert_sets=o.sets), "to_tuple", ln, f"print(to_tuple(v{kw}))")
    if r.random() < 0.4:
        fmt = r.choice(["json", "msgpack", "yaml", "pickle"])
        exp = expect(t.ser, v, formats.ser_opts(fmt))
        out = call(getattr(FMT[fmt], "to_" + fmt), v)
        if exp.kind == "reject":
            c.must(exp, out, "to_" + fmt, ln, f"print(to_{fmt}(v))")
        elif exp.kind == "ok" and out.kind == "ok" and formats.finite(exp.v):
            try:
                want = formats.loads(fmt, formats.dumps(fmt, exp.v))
            except Exception:
                return
            got = formats.loads(fmt, out.v)
            c.evaluate((fmt, ln))
            if not same(formats.norm(want), formats.norm(got)):
                c.fail(f"to_{fmt} wrote {got!r}, expected {want!r}", ln, f"print(to_{fmt}(v))")


def wire_twist(w, r, rec, p):
    if isinstance(w, dict):
        return {k: wire_twist(x, r, rec, p) for k, x in w.items()}
    if isinstance(w, (list, tuple)):
        return [wire_twist(x, r, rec, p) for x in w]
    if r.random() < p:
        rec.event("twisted")
        k = r.random()
        return None if k < 0.05 else [1] if k < 0.08 else {} if k < 0.1 else r.choice(POOL)
    return w


def read(c, rec, r, cl, g):
    t = ClsT(cl)
    v = c.value(t, g)
    named = r.random() < 0.7
    try:
        w = t.ser(v, Opts(named=named, reuse=False, sets=True))
    except (ModelError, Unknown):
        rec.skip("form not determined")
        return
    w = wire_twist(w, r, rec, r.choice([0.1, 0.3, 0.6]))
    k = r.random()
    name = "from_dict" if named else "from_tuple"
    if k < 0.7 or not named:
        exp = expect(t.de, w, Opts(named=named))
        c.must(exp, call(getattr(serde, name), cl.py, w), name, f"d = {lit(w)}", f"print({name}({cl.name}, d))")
        return
    fmt = r.choice(["json", "msgpack", "yaml", "toml"])
    try:
        doc = formats.dumps(fmt, w)
        ext = formats.loads(fmt, doc)
    except Exception:
        rec.skip("not writable")
        return
    exp = expect(t.de, ext, formats.de_opts(fmt))
    c.must(exp, call(getattr(FMT[fmt], "from_" + fmt), cl.py, doc), "from_" + fmt, f"print(from_{fmt}({cl.name}, {lit(doc)}))")
