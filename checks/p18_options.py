"""P18: reuse_instances, convert_sets, skip_none and number coercion act uniformly at every depth; explicit beats default."""
import collections
import itertools

import serde

from checks import p07_skip, p08_flatten
from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect, opts_src
from lib.spec import (AnyT, Bare, ClsT, DateT, DequeT, DictT, Float, Int, ListT, ModelError, OptT, Opts, Str, StrSer, TupleT, UnionT, Unknown,
                      VarTupleT, lit, same)

PROP = "P18"
BUDGET = {"quick": 2000, "thorough": 30000}
CHUNK = 25
RULE = "distinct (program, value or data, combination of options) compared"
MIN = {"evaluations": 32000, "distinct": 26000, "accepts": 32000, "scanned": 20000, "coerced_reads": 3400, "reuse_reads": 3000,
       "unions_direct": 1600}

INST = (StrSer, DateT)


def program(r, rec):
    k = r.random()
    if k < 0.2:
        return p08_flatten.make_unique(r, rec)[0]
    return PG(r, depth=r.choice([2, 3, 4]), max_fields=4, ncls=(2, 4), reuse_default=0.45, sets_default=0.45, plain=0.25, inherit=0.15, defaults=0.25,
              any=r.random() < 0.3, bare=r.random() < 0.3, check=("strict", "strict", "disabled"), class_skip=0.1,
              taggings=("external", "internal", "adjacent", "untagged")).program()


def leaves(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(k)
            yield from leaves(v)
    elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        yield x
        for v in x:
            yield from leaves(v)
    else:
        yield x


PLAIN = (int, float, str, bool, bytes, type(None), list, tuple)


def case(r, rec, i, cfg):
    prog = program(r, rec)
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        loose = any(isinstance(k, (AnyT, Bare)) for d in cls_nodes(prog) for f in d.all_fields() for k in f.ty.walk())
        flat = any(f.flatten for d in cls_nodes(prog) for f in d.all_fields())
        g = Gen(r, c.ns, p_default=0.2)
        for cl in cls_nodes(prog)[::-1][:2]:
            t = ClsT(cl)
            top = t
            if r.random() < 0.35:
                top = r.choice([ListT(t), DictT(Str(), t), TupleT([t, Int()]), VarTupleT(t), DequeT(t)] + ([OptT(t)] if not nullable(t) else []))
            write(c, rec, r, top, g, loose, flat)
            if not flat:
                union(c, rec, r, cl, g, loose)
            for _ in range(3):
                read(c, rec, r, top, g, flat)


def write(c, rec, r, top, g, loose, flat):
    v = c.value(top, g)
    c.lines = [f"v = {lit(v)}"]
    for reuse, sets, skip in itertools.product((None, True, False), (None, True, False), (False, True)):
        if r.random() < 0.3:
            continue
        kw = {}
        if reuse is not None:
            kw["reuse_instances"] = reuse
        if sets is not None:
            kw["convert_sets"] = sets
        if skip:
            kw["skip_none"] = True
        tup = not flat and r.random() < 0.25
        fn = "to_tuple" if tup else "to_dict"
        o = Opts(named=not tup, reuse=reuse, sets=sets, skip_none=skip)
        out = call(getattr(serde, fn), v, **kw)
        if not (tup and skip):
            c.must(expect(top.ser, v, o), out, fn, f"print({fn}(v{opts_src(kw)}))")
        if out.kind == "ok" and not loose:
            rec.event("scanned")
            for x in leaves(out.v):
                if reuse is False and type(x) not in PLAIN and not isinstance(x, (set, frozenset, int, float, str)):
                    c.fail(f"{fn} with reuse_instances=False left {x!r}", f"print({fn}(v{opts_src(kw)}))")
                if sets is True and isinstance(x, (set, frozenset)):
                    c.fail(f"{fn} with convert_sets=True left {x!r}", f"print({fn}(v{opts_src(kw)}))")


def union(c, rec, r, cl, g, loose):
    """A union passed directly (or in a container) follows the options, too."""
    if cl.transparent:
        return
    u = UnionT([ClsT(cl), Int(), ListT(Str())], "union")
    r.shuffle(u.els)
    v = c.value(ClsT(cl), g)
    reuse, sets, skip = r.choice([True, False]), r.choice([True, False]), r.random() < 0.3
    kw = dict(reuse_instances=reuse, convert_sets=sets)
    if skip:
        kw["skip_none"] = True
    typ = eval(u.src(), c.ns)
    c.lines = [f"v = {lit(v)}"]
    rec.event("unions_direct")
    c.must(expect(u.ser, v, Opts(reuse=reuse, sets=sets, skip_none=skip)), call(serde.to_dict, v, c=typ, **kw), "to_dict",
           f"print(to_dict(v, c={u.src()}{opts_src(kw)}))")


def loosen(w, t, o, r, rec, named=True):
    """Integers for floats where the declared type says float (and strings for YAML)."""
    if isinstance(t, Float) and isinstance(w, float):
        k = r.random()
        if k < 0.55:
            rec.event("coerced")
            return r.choice([0, 1, -7, 2**53 + 1])
        if k < 0.6:
            return r.choice([True, None, "x", []])
        if k < 0.7:
            return r.choice(["1.5", "2", "1e3", "nan", " 1 "])
        return w
    if isinstance(t, OptT):
        return None if w is None else loosen(w, t.el, o, r, rec)
    if isinstance(t, (ListT, VarTupleT, DequeT)) and isinstance(w, (list, tuple)):
        return [loosen(x, t.el, o, r, rec) for x in w]
    if isinstance(t, TupleT) and isinstance(w, (list, tuple)):
        return [loosen(x, e, o, r, rec) for x, e in zip(w, t.els)]
    if isinstance(t, DictT) and isinstance(w, dict):
        return {k: loosen(x, t.v, o, r, rec) for k, x in w.items()}
    if isinstance(t, UnionT) and not isinstance(w, (dict,)):
        for e in t.els:
            if isinstance(e, Float) and isinstance(w, float) or isinstance(e, (ListT, VarTupleT)) and isinstance(w, list):
                return loosen(w, e, o, r, rec)
    if isinstance(t, ClsT) and isinstance(w, dict) and not t.cls.transparent and not any(f.flatten for f in t.cls.all_fields()):
        by = {t.cls.wire_name(f): f for f in t.cls.de_fields()}
        return {k: loosen(x, by[k].ty, o, r, rec) if k in by else x for k, x in w.items()}
    return w


def strict_numbers(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise serde.SerdeError(f"not a number: {x!r}")
    try:
        return float(x)
    except OverflowError as e:
        raise serde.SerdeError(e)


def read(c, rec, r, top, g, flat):
    v = c.value(top, g)
    named = flat or r.random() < 0.75
    inst = r.random() < 0.5
    try:
        w = top.ser(v, Opts(named=named, reuse=inst, sets=True))
    except (ModelError, Unknown):
        return
    src = top.src()
    typ = eval(src, c.ns)
    c.lines = []
    k = r.random()
    if k < 0.45:
        reuse = r.choice([None, True, False])
        kw = {} if reuse is None else {"reuse_instances": reuse}
        o = Opts(named=named, reuse=reuse)
        extra = ""
        if r.random() < 0.4 and named:
            w = loosen(w, top, o, r, rec)
            kw["deserialize_numbers"] = strict_numbers
            o = o.w(num="json")
            c.lines = ["from checks.p18_options import strict_numbers"]
            extra = ", deserialize_numbers=strict_numbers"
        fn = "from_dict" if named else "from_tuple"
        rec.event("reuse_reads")
        c.must(expect(top.de, w, o), call(getattr(serde, fn), typ, w, **kw), fn, f"d = {lit(w)}",
               f"print({fn}({src}, d{'' if reuse is None else f', reuse_instances={reuse}'}{extra}))")
        return
    fmt = r.choice(["json", "yaml", "json", "yaml", "msgpack"])
    try:
        w = loosen(top.ser(v, Opts(reuse=False, sets=True)), top, None, r, rec)
        doc = formats.dumps(fmt, w)
        ext = formats.loads(fmt, doc)
    except Exception:
        rec.skip("the format cannot hold the data")
        return
    kw = {}
    o = formats.de_opts(fmt)
    if fmt != "msgpack" and r.random() < 0.6:
        kw["coerce_numbers"] = r.choice([True, False])
        o = o.w(num=fmt if kw["coerce_numbers"] else None)
    rec.event("coerced_reads")
    c.must(expect(top.de, ext, o), call(getattr(FMT[fmt], "from_" + fmt), typ, doc, **kw), "from_" + fmt,
           f"print(from_{fmt}({src}, {lit(doc)}{opts_src(kw)}))")
