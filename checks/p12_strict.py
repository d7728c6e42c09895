"""P12: with strict checking no object ever holds an ill-typed field, and well-typed data is never refused."""
import collections
import dataclasses

import serde

from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (AnyT, Bool, ClsT, DictT, Float, Int, ListT, ModelError, NoneT, OptT, Opts, Str, TupleT, Unknown, gen_plain, key_order,
                      lit, same)

PROP = "P12"
BUDGET = {"quick": 5000, "thorough": 100000}
CHUNK = 50
RULE = "distinct (program, constructor arguments or input) containing an ill-typed part whose acceptance was compared"
MIN = {"evaluations": 52000, "distinct": 49000, "accepts": 10000, "rejects": 14000, "construct_ok": 9300, "construct_refused": 10000,
       "walked": 12000}


def strict(cl):
    return cl.check == "strict" and cl.decorator != "plain"


def ill(v, c, seen=None):
    """A field of a strict class anywhere below v that holds a value outside its type."""
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            p = ill(x, c)
            if p:
                return p
    elif isinstance(v, dict):
        for k, x in v.items():
            p = ill(k, c) or ill(x, c)
            if p:
                return p
    elif dataclasses.is_dataclass(v) and not isinstance(v, type):
        cl = next((d for d in cls_nodes(c.prog) if d.py is type(v)), None)
        if cl is None:
            return None
        for f in cl.all_fields():
            if f.classvar or not hasattr(v, f.name):
                continue
            x = getattr(v, f.name)
            if strict(cl) and f.ty.isa(x) == "no":
                return f"{cl.name}.{f.name} = {lit(x)} is not a {f.ty.src()}"
            p = ill(x, c)
            if p:
                return p
    return None


def case(r, rec, i, cfg):
    pg = PG(r, depth=r.choice([1, 1, 2, 3]), check=("strict",) * 5 + ("disabled",), inherit=0.2, defaults=0.4, plain=0.1, max_fields=4,
            ncls=(1, 3), rename=0.05, rename_all=0.1, slots=0.0)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.3)
        for cl in cls_nodes(prog)[::-1][:2]:
            for _ in range(6):
                construct(c, rec, r, cl, g)
            for _ in range(6):
                feed(c, rec, r, cl, g)


def stray(r, t, g, pool, c):
    """A python value that may or may not belong to t."""
    k = r.random()
    if k < 0.45:
        o = r.choice(pool)
        try:
            return o.gen(g)
        except Exception:
            return None
    if k < 0.6:
        return None
    if k < 0.75:
        return r.choice([0, "", 1.5, True, [], {}, (), set(), [1], ["a"], {"a": 1}, {1: "a"}, (1,), ("a", 1), b"x", object])
    try:
        v = t.gen(g)
    except Exception:
        return None
    if isinstance(v, list):
        return r.choice([tuple(v), [stray0(r)] * max(1, len(v)), {j: x for j, x in enumerate(v)}])
    if isinstance(v, tuple):
        return r.choice([list(v), v + (stray0(r),), v[:-1], tuple(stray0(r) for _ in v)])
    if isinstance(v, (set, frozenset)):
        return r.choice([list(v), {stray0(r)}, frozenset(v)])
    if isinstance(v, dict):
        return r.choice([list(v), {k: stray0(r) for k in v} or {"z": stray0(r)}, {stray0(r): x for x in v.values()}])
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return r.choice([str(v), float(v) if abs(v) < 2**60 else 1.0])
    if isinstance(v, float):
        return r.choice([str(v), 1])
    return r.choice([str(v), [v]])


def stray0(r):
    return r.choice([0, "s", 1.5, True, None, b"b"])


def construct(c, rec, r, cl, g):
    if not strict(cl):
        return
    pool = [f.ty for d in cls_nodes(c.prog) for f in d.all_fields()] + [Int(), Str(), Float(), Bool()]
    kw, verdict = {}, "yes"
    for f in cl.all_fields():
        if f.classvar or f.has_default() and r.random() < 0.3:
            continue
        if r.random() < 0.4:
            kw[f.name] = stray(r, f.ty, g, pool, c)
        else:
            kw[f.name] = c.value(f.ty, g)
        k = f.ty.isa(kw[f.name])
        if k == "no":
            verdict = "no"
        elif k == "maybe" and verdict != "no":
            verdict = "maybe"
    try:
        args = ", ".join(f"{k}={lit(x)}" for k, x in kw.items())
    except Exception:
        args = repr(kw)
    ln = f"print({cl.name}({args}))"
    out = call(c.ns[cl.name], **kw)
    c.evaluate((cl.name, args))
    if verdict == "no":
        rec.event("construct_refused")
        if out.kind == "ok":
            c.fail(f"the constructor accepted an ill-typed argument: {out!r}", ln)
        if out.kind == "boom":
            c.fail(f"an ill-typed argument {out!r}", ln)
    elif verdict == "yes":
        rec.event("construct_ok")
        if out.kind != "ok":
            c.fail(f"the constructor refused well-typed arguments: {out!r}", ln)


def corrupt(r, w, g, depth=0):
    """Valid data with one part replaced."""
    if isinstance(w, dict) and w and r.random() < (0.75 if depth else 1):
        k = r.choice(list(w))
        return {q: (corrupt(r, x, g, depth + 1) if q == k else x) for q, x in w.items()}
    if isinstance(w, (list, tuple)) and w and r.random() < 0.65:
        if r.random() < 0.4:
            return [corrupt(r, x, g, depth + 1) for x in w]
        n = r.randrange(len(w))
        return [corrupt(r, x, g, depth + 1) if q == n else x for q, x in enumerate(w)]
    k = r.random()
    if k < 0.2:
        return None
    if k < 0.5 and isinstance(w, (int, float, str)):
        if isinstance(w, bool):
            return r.choice([0, 1, "true", "x", 1.0])
        if isinstance(w, int):
            return r.choice([str(w), True, "x", [w], {"a": w}, 1.5])
        if isinstance(w, float):
            return r.choice([1, "1.5", True, [w]])
        return r.choice([0, 1.5, True, [w], [], {w: w}, w + "?", w.upper()])
    return gen_plain(g, 2)


def feed(c, rec, r, cl, g):
    t = ClsT(cl)
    v = c.value(t, g)
    try:
        w = t.ser(v, Opts(reuse=False, sets=True))
    except (ModelError, Unknown):
        rec.skip("form not determined")
        return
    top, src = t, cl.name
    if r.random() < 0.2:
        top, w = r.choice([(ListT(t), [w, w]), (DictT(Str(), t), {"k": w}), (t if nullable(t) else OptT(t), w), (TupleT([t, t]), [w, w])])
        src = top.src()
    if r.random() < 0.8:
        w = corrupt(r, w, g)
    exp = expect(top.de, w, Opts())
    ln = (f"d = {lit(w)}", f"print(from_dict({src}, d))")
    typ = eval(src, c.ns)
    out = call(serde.from_dict, typ, w)
    if top is t or exp.kind != "reject" or cl.check == "strict":
        c.must(exp, out, "from_dict", *ln)
    if out.kind == "ok":
        rec.event("walked")
        p = ill(out.v, c)
        if p:
            c.fail(f"from_dict gave an object with an ill-typed field: {p}", *ln)
    elif out.kind != "serde":
        rec.event("other_exception")
    if r.random() < 0.2:
        fmt = r.choice(["json", "yaml", "msgpack", "toml"])
        try:
            doc = formats.dumps(fmt, w)
            ext = formats.loads(fmt, doc)
        except Exception:
            return
        fr = f"from_{fmt}"
        out = call(getattr(FMT[fmt], fr), typ, doc)
        ln = (f"print({fr}({src}, {lit(doc)}))",)
        c.must(expect(top.de, ext, formats.de_opts(fmt)), out, fr, *ln)
        if out.kind == "ok":
            p = ill(out.v, c)
            if p:
                c.fail(f"{fr} gave an object with an ill-typed field: {p}", *ln)
