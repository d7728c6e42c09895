"""P15: arguments are never modified; equal calls give equal, independent results; defaults and options do not leak."""
import collections
import dataclasses

import serde

from checks import p07_skip, p08_flatten
from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes
from lib.spec import AnyT, Bare, ClsT, DictT, ListT, ModelError, OptT, Opts, Str, TupleT, Unknown, lit, same

PROP = "P15"
BUDGET = {"quick": 3500, "thorough": 80000}
CHUNK = 40
RULE = "distinct (program, value, call) whose arguments were snapshotted and whose results were disturbed"
MIN = {"evaluations": 19000, "distinct": 19000, "snapshots": 19000, "disturbed": 10000, "containers": 52000, "defaults": 2100}

MUT = (list, dict, set, collections.deque)


def freeze(x, path=()):
    """Everything observable about a value, with the identity of each part."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        names = [f.name for f in dataclasses.fields(x)]
        d = {**{n: getattr(x, n, None) for n in names}, **getattr(x, "__dict__", {})}
        return (type(x), id(x), tuple((k, freeze(v)) for k, v in d.items()))
    if isinstance(x, dict):
        return (type(x), id(x), getattr(x, "default_factory", None), tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x), id(x), tuple(map(freeze, x)))
    if isinstance(x, (set, frozenset)):
        return (type(x), id(x), frozenset(map(id, x)))
    return (type(x), repr(x))


def mutables(x, t, out, c):
    """ids of the mutable parts the library has to build itself (positions without declared form left out)."""
    if isinstance(t, (AnyT, Bare)):
        return out
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        out[id(x)] = x
        cl = c.by_type.get(type(x))
        if cl is not None:
            for f in cl.all_fields():
                if not f.classvar and not (f.flatten and not isinstance(f.ty, (ClsT, OptT))):
                    mutables(getattr(x, f.name), f.ty if not any(isinstance(k, (AnyT, Bare)) for k in f.ty.walk()) else AnyT(), out, c)
    elif isinstance(x, dict):
        out[id(x)] = x
        for k, v in x.items():
            mutables(v, None, out, c)
    elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        if isinstance(x, MUT):
            out[id(x)] = x
        for v in x:
            mutables(v, None, out, c)
    return out


def disturb(x, c, seen=None):
    seen = seen if seen is not None else set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        for f in dataclasses.fields(x):
            if hasattr(x, f.name):
                disturb(getattr(x, f.name), c, seen)
        if type(x) in c.by_type:
            for f in dataclasses.fields(x):
                object.__setattr__(x, f.name, "disturbed")
    elif isinstance(x, dict):
        for v in list(x.values()):
            disturb(v, c, seen)
        x.clear()
        x["disturbed"] = 1
    elif isinstance(x, (list, tuple, collections.deque)):
        for v in list(x):
            disturb(v, c, seen)
        if not isinstance(x, tuple):
            x.append("disturbed")
            if len(x) > 1:
                x[0] = "first"
    elif isinstance(x, (set, frozenset)):
        for v in list(x):
            disturb(v, c, seen)
        if isinstance(x, set):
            x.clear()
            x.add("disturbed")


def program(r, rec):
    k = r.random()
    if k < 0.15:
        return p08_flatten.make_unique(r, rec)[0]
    if k < 0.25:
        return p07_skip.SkipPG(r, depth=2, defaults=0.6, class_skip=0.25, max_fields=4).program()
    return PG(r, depth=r.choice([1, 2, 3]), max_fields=5, defaults=0.5, reuse_default=0.2, sets_default=0.2, alias=0.1, deny=0.05,
              any=r.random() < 0.4, bare=r.random() < 0.4).program()


def case(r, rec, i, cfg):
    prog = program(r, rec)
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        c.by_type = {d.py: d for d in cls_nodes(prog)}
        g = Gen(r, c.ns, p_default=0.4)
        for cl in cls_nodes(prog)[::-1][:2]:
            t = ClsT(cl)
            loose = any(isinstance(k, (AnyT, Bare)) for d in cls_nodes(prog) for f in d.all_fields() for k in f.ty.walk()) or \
                any(f.flatten and not isinstance(f.ty, (ClsT, OptT)) for d in cls_nodes(prog) for f in d.all_fields())
            for _ in range(3):
                top = t
                if r.random() < 0.25:
                    top = r.choice([ListT(t), DictT(Str(), t), TupleT([t, t])])
                write(c, rec, r, top, g, loose)
                read(c, rec, r, top, g, loose)


def write(c, rec, r, top, g, loose):
    v = c.value(top, g)
    fmt = r.choice(["dict", "dict", "tuple", "json", "yaml", "msgpack", "pickle"])
    kw = {}
    if fmt in ("dict", "tuple"):
        if r.random() < 0.6:
            kw["reuse_instances"] = r.choice([True, False])
        if r.random() < 0.6:
            kw["convert_sets"] = r.choice([True, False])
        fn = getattr(serde, "to_" + fmt)
    else:
        fn = getattr(FMT[fmt], "to_" + fmt)
    if fmt != "tuple" and r.random() < 0.2:
        kw["skip_none"] = True
    ln = (f"v = {lit(v)}", f"print(to_{fmt}(v{''.join(f', {k}={x}' for k, x in kw.items())}))")
    plain0 = call(serde.to_dict, v)
    before = freeze(v)
    a = call(fn, v, **kw)
    rec.event("snapshots")
    c.evaluate((fmt, ln))
    if freeze(v) != before:
        c.fail(f"to_{fmt} modified the object: now {lit(v)}", *ln)
    b = call(fn, v, **kw)
    if a.kind != b.kind or a.kind == "ok" and not same(a.v, b.v):
        c.fail(f"to_{fmt} gave {a!r} the first and {b!r} the second time", *ln)
    if a.kind != "ok":
        return
    if fmt in ("dict", "tuple"):
        ia, iv = mutables(a.v, None, {}, c), None
        if not loose:
            ib, iv = mutables(b.v, None, {}, c), mutables(v, None, {}, c)
            rec.event("containers", len(ia))
            for k in ia:
                if k in ib:
                    c.fail(f"two results of to_{fmt} share {lit(ia[k])}", *ln)
                if k in iv and not (kw.get("convert_sets") is not True and isinstance(ia[k], (set, frozenset))):
                    c.fail(f"the result of to_{fmt} shares {lit(ia[k])} with the object", *ln)
            disturb(a.v, c)
            rec.event("disturbed")
            if freeze(v) != before and not any(isinstance(x, set) for x in iv.values()):
                c.fail(f"changing the result of to_{fmt} changed the object", *ln)
            if freeze(v) == before:
                d = call(fn, v, **kw)
                if d.kind != "ok" or not same(b.v, d.v):
                    c.fail(f"changing one result of to_{fmt} changed a later one: {d!r}, before {b!r}", *ln)
    if freeze(v) == before:
        plain1 = call(serde.to_dict, v)
        if plain0.kind != plain1.kind or plain0.kind == "ok" and not same(plain0.v, plain1.v):
            c.fail(f"to_dict(v) gave {plain1!r} after to_{fmt} with options, {plain0!r} before", *ln)


def read(c, rec, r, top, g, loose):
    v = c.value(top, g)
    named = r.random() < 0.75
    reuse = r.choice([None, True, False])
    try:
        w = top.ser(v, Opts(named=named, reuse=bool(reuse), sets=r.choice([True, False])))
    except (ModelError, Unknown):
        return
    name = "from_dict" if named else "from_tuple"
    kw = {} if reuse is None else {"reuse_instances": reuse}
    typ = eval(top.src(), c.ns)
    if named and isinstance(w, dict) and r.random() < 0.5 and isinstance(top, ClsT):
        # leave out what has a default
        for f in top.cls.de_fields():
            if f.has_default() and not f.flatten:
                w.pop(top.cls.wire_name(f), None)
                rec.event("defaults")
    if r.random() < 0.15 and isinstance(w, dict) and w:
        w = {**w, r.choice(list(w)): object}     # also a rejected input stays as it is
    try:
        ln = (f"d = {lit(w)}", f"print({name}({top.src()}, d{''.join(f', {k}={x}' for k, x in kw.items())}))")
    except Exception:
        ln = (f"# {w!r}", f"# {name}")
    fn = getattr(serde, name)
    before = freeze(w)
    a = call(fn, typ, w, **kw)
    rec.event("snapshots")
    c.evaluate((name, ln))
    if freeze(w) != before:
        c.fail(f"{name} modified its input: now {w!r}", *ln)
    b = call(fn, typ, w, **kw)
    if a.kind != b.kind or a.kind == "ok" and not same(a.v, b.v):
        c.fail(f"{name} gave {a!r} the first and {b!r} the second time", *ln)
    if a.kind != "ok":
        return
    ia, ib, iw = mutables(a.v, None, {}, c), mutables(b.v, None, {}, c), mutables(w, None, {}, c)
    rec.event("containers", len(ia))
    if loose:
        return
    for k in ia:
        if k in ib and not isinstance(ia[k], MUT):
            c.fail(f"two results of {name} share {lit(ia[k])}", *ln)
        if k in ib and k not in iw:
            c.fail(f"two results of {name} share {lit(ia[k])}", *ln)
        if k in iw:
            c.fail(f"the result of {name} shares {lit(ia[k])} with the input", *ln)
    keep = freeze(b.v)
    disturb(a.v, c)
    rec.event("disturbed")
    if freeze(b.v) != keep:
        c.fail(f"changing one result of {name} changed another: {lit(b.v)}", *ln)
    if freeze(w) != before:
        c.fail(f"changing the result of {name} changed the input: {w!r}", *ln)
    d = call(fn, typ, w, **kw)
    if d.kind != "ok" or not same(b.v, d.v):
        c.fail(f"changing one result of {name} changed a later one: {d!r}, before {b!r}", *ln)
