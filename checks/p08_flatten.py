"""P08: flattened classes and dicts are merged into the parent and separated again without loss."""
import serde

from lib import formats
from lib.gen import Gen, PG, nullable, rsample_names
from lib.oracle import FMT, Case, call, cls_nodes, expect, opts_src
from lib.spec import (AnyT, Bare, Bool, Cls, ClsT, DictT, Fld, Float, Int, ListT, ModelError, OptT, Opts, Program, SetT, Str, TupleT, Unknown,
                      gen_plain, lit, same)

PROP = "P08"
BUDGET = {"quick": 5000, "thorough": 110000}
CHUNK = 50
RULE = "distinct (program, value or input) whose merged form, separation or round trip was compared"
MIN = {"evaluations": 24000, "distinct": 21000, "accepts": 17000, "roundtrip": 4900, "captured": 9800, "nested_flatten": 2400,
       "tuple": 750, "conflict": 1}


def make(r, rec):
    pg = PG(r, depth=r.choice([1, 1, 2]), transparent=0.0, inherit=0.0, plain=0.12, rename=0.25, rename_all=0.25, alias=0.1,
            defaults=0.25, max_fields=3, deny=0.1, class_skip=0.1, skip=0.0, kw_only=0.1, slots=0.0)
    pool = rsample_names(r)
    if r.random() < 0.4:
        pg.cls()        # an ordinary class usable as a field type
    lv = []
    levels = r.choice([1, 1, 2, 2, 3])
    for lev in range(levels + 1):
        for _ in range(r.choice([1, 1, 2]) if lev < levels else 1):
            fs = []
            for _ in range(r.randint(0 if lev < levels else 1, 3)):
                f = Fld(pool.pop(), pg.ty())
                pg.decorate(Cls("X", []), f, False)
                if r.random() < 0.12 and f.has_default():
                    f.skip_if_default = True
                elif r.random() < 0.1:
                    f.skip_if_none = True
                elif r.random() < 0.05 and f.has_default():
                    f.skip = True
                fs.append(f)
            if lev > 0:
                for c in r.sample(lv, min(len(lv), r.choice([1, 1, 2]))):
                    if any(x.flatten and getattr(x.ty, "cls", None) is c for x in fs):
                        continue
                    t = ClsT(c)
                    k = r.random()
                    f = Fld(pool.pop(), t, flatten=True)
                    if k < 0.3:
                        f.ty = OptT(t, r.choice(OptT.FORMS))
                        if r.random() < 0.5:
                            f.default = None
                    elif k < 0.42 and all(y.has_default() for y in c.all_fields()):
                        f.factory = c.name
                    if lev > 1:
                        rec.event("nested_flatten")
                    lv.remove(c)
                    fs.append(f)
            if r.random() < 0.35:
                f = Fld(pool.pop(), r.choice([DictT(Str(), AnyT()), Bare("dict"), DictT(Str(), AnyT(), "_t.Dict[{}, {}]")]), flatten=True)
                if r.random() < 0.6:
                    f.factory = "dict"
                fs.append(f)
            r.shuffle(fs)
            kw = {}
            c = pg.cls(fields=fs, **kw)
            if not c.kw_only:
                c.fields.sort(key=lambda f: f.has_default())
            lv.append(c)
    return pg.program(), lv


def make_unique(r, rec):
    """A program whose flattened classes do not compete for keys."""
    for _ in range(40):
        prog, lv = make(r, rec)
        if all(unique(c) and dicts(c) <= 1 for c in cls_nodes(prog)):
            break
    return prog, lv


def unique(top):
    """No key is claimed by two classes of the tree."""
    seen = set()

    def go(c):
        for f in c.all_fields():
            if f.flatten:
                t = f.ty.el if isinstance(f.ty, OptT) else f.ty
                if isinstance(t, ClsT) and not go(t.cls):
                    return False
                continue
            ks = set(c.de_keys(f))
            if ks & seen:
                return False
            seen.update(ks)
        return True
    return go(top)


def dicts(c):
    """Number of flattened dicts in the tree."""
    n = 0
    for f in c.all_fields():
        if f.flatten:
            t = f.ty.el if isinstance(f.ty, OptT) else f.ty
            n += dicts(t.cls) if isinstance(t, ClsT) else 1
    return n


def claimed(top, v, skip_none):
    """A captured key belongs to a member which is not there, or to a field which may be left out."""
    absent, captured = set(), set()

    def go(cl, x):
        for f in cl.all_fields():
            if not f.flatten:
                if (skip_none or f.skip or f.skip_ser or f.skip_if or f.skip_if_none or f.skip_if_false or f.skip_if_default
                        or cl.c_skip_none or cl.c_skip_default or top.c_skip_none):
                    absent.update(cl.de_keys(f))
                continue
            y, t = getattr(x, f.name), f.ty.el if isinstance(f.ty, OptT) else f.ty
            if not isinstance(t, ClsT):
                captured.update(y)
            elif y is None:
                absent.update(t.cls.accepted())
            else:
                go(t.cls, y)
    go(top, v)
    return bool(absent & captured)


def flat_dicts(top, v):
    """The flattened dicts of an object and of the objects flattened into it."""
    out = []
    for f in top.all_fields():
        if f.flatten and not (f.skip or f.skip_ser):
            y, t = getattr(v, f.name), f.ty.el if isinstance(f.ty, OptT) else f.ty
            if not isinstance(t, ClsT):
                out.append(y)
            elif y is not None:
                out += flat_dicts(t.cls, y)
    return out


def conflict(c, rec, r, top, base, v, o):
    """Puts the keys of written fields into a flattened dict: the fields take precedence."""
    ds = flat_dicts(top, v)
    exp = expect(base.ser, v, o)
    if len(ds) != 1 or exp.kind != "ok" or ds[0]:
        return
    keys = [k for k in exp.v if isinstance(k, str)]
    for k in r.sample(keys, min(len(keys), r.choice([1, 2, 9]))):
        ds[0][k] = r.choice([None, 0, "", "other", 5, [1], {"a": 1}])
        rec.event("conflict")
    if r.random() < 0.5:
        ds[0]["zz"] = 1


def case(r, rec, i, cfg):
    prog, lv = make(r, rec)
    top = lv[-1]
    if not unique(top):
        rec.skip("keys collide")
        return
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.2)
        nd = dicts(top)
        base = ClsT(top)
        for _ in range(4):
            v = c.value(base, g)
            c.lines = [f"v = {lit(v)}"]
            kw = {}
            if r.random() < 0.25:
                kw["reuse_instances"] = r.random() < 0.5
            if r.random() < 0.25:
                kw["convert_sets"] = r.random() < 0.5
            if r.random() < 0.2:
                kw["skip_none"] = True
            o = Opts(reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets"), skip_none=kw.get("skip_none", False))
            if nd == 1 and r.random() < 0.6:
                conflict(c, rec, r, top, base, v, o)
                c.lines = [f"v = {lit(v)}"]
            exp = expect(base.ser, v, o)
            out = call(serde.to_dict, v, **kw)
            if nd > 1 and exp.kind == "ok" or claimed(top, v, o.skip_none):
                # which of two captured dicts wins on a common key, and whether a captured key that a missing
                # member would claim is written, is not specified
                exp.kind = "unknown"
            c.must(exp, out, "to_dict", f"print(to_dict(v{opts_src(kw)}))")
            # round trip, whenever what was written determines the value
            if exp.kind == "ok" and not kw.get("skip_none"):
                rt(c, rec, top, base, v, exp.v)
            tup(c, rec, top, v)
            data = feed(c, rec, r, top, base, g, nd)
            if r.random() < 0.2 and exp.kind == "ok":
                fmt = r.choice(["json", "yaml", "msgpack", "toml"])
                w = expect(base.ser, v, formats.ser_opts(fmt))
                if w.kind != "ok":
                    continue
                try:
                    ext = formats.loads(fmt, formats.dumps(fmt, w.v))
                except Exception:
                    continue
                de = expect(base.de, ext, formats.de_opts(fmt))
                if de.kind == "ok" and same(de.v, v):
                    t, f, _ = formats.names(fmt)
                    doc = c.ok(call(getattr(FMT[fmt], t), v), t, f"print({t}(v))")
                    c.must(de, call(getattr(FMT[fmt], f), c.ns[top.name], doc), f, f"print({f}({top.name}, {t}(v)))")
                    rec.event("formats")


def rt(c, rec, top, base, v, w):
    de = expect(base.de, w, Opts(reuse=True))
    if de.kind != "ok" or not same(de.v, v):
        rec.event("not_recoverable")
        return
    rec.event("roundtrip")
    c.must(de, call(serde.from_dict, c.ns[top.name], w, reuse_instances=True), "from_dict",
           f"print(from_dict({top.name}, {lit(w)}, reuse_instances=True))")


def tup(c, rec, top, v):
    """The tuple form of a class without skipped fields gives the object back."""
    def fine(cl):
        for f in cl.all_fields():
            if f.skip or f.skip_if_default or f.skip_if_none:
                return False
            if f.flatten:
                if not isinstance(f.ty, ClsT) or not fine(f.ty.cls):
                    return False
        return cl.fields != []
    if not fine(top) or any(f.skip for d in cls_nodes(c.prog) for f in d.fields):
        return
    rec.event("tuple")
    t = c.ok(call(serde.to_tuple, v, reuse_instances=True), "to_tuple", "print(to_tuple(v))")
    out = call(serde.from_tuple, c.ns[top.name], t, reuse_instances=True)
    if expect(ClsT(top).de, ClsT(top).ser(v, Opts(reuse=True)), Opts(reuse=True)).kind == "unknown":
        return
    c.evaluate(("tuple", lit(v)))
    if out.kind != "ok" or not same(out.v, v):
        c.fail(f"from_tuple(to_tuple(v)) {out!r}", f"print(from_tuple({top.name}, to_tuple(v, reuse_instances=True), reuse_instances=True))")


def feed(c, rec, r, top, base, g, nd):
    """Inputs with extra keys, with keys left out, and with the members' fields in any order."""
    v = c.value(base, g)
    w = expect(base.ser, v, Opts(reuse=False, sets=True))
    if w.kind != "ok":
        return
    items = list(w.v.items())
    k = r.random()
    if k < 0.4:
        items = [x for x in items if r.random() > 0.25]
    elif k < 0.5:
        items = []
    taken = top.accepted() | {x for x, _ in items}
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        name = r.choice(["zz", "extra", "bar", "role", "x y", "日", "_", "0", "data", "cls", top.all_fields()[0].name])
        if name not in taken:
            items.append((name, gen_plain(g, 1)))
            rec.event("captured", 1 if nd else 0)
    r.shuffle(items)
    data = dict(items)
    if nd > 1 and set(data) - top.accepted():
        return
    c.must(expect(base.de, data, Opts()), call(serde.from_dict, c.ns[top.name], data), "from_dict",
           f"d = {lit(data)}", f"print(from_dict({top.name}, d))")
