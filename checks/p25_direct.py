"""P25: a type passed directly behaves as it does as the type of a field."""
import serde

from checks.p14_malformed import mutate
from lib import formats
from lib.gen import Gen, PG, TAGS
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import (Alias, AnyT, Bare, Bool, Cls, ClsT, CounterT, DateT, DictT, EnumT, Fld, Float, FrozenSetT, Int, ListT, Lit, ModelError, NewT, NoneT, OptT,
                      Opts, PrimSub, Program, SetT, Str, StrSer, TupleT, UnionT, Unknown, VarTupleT, lit, same, tag_src)

PROP = "P25"
BUDGET = {"quick": 2500, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, type, data or value, function, options) compared between direct use and use as a field"
MIN = {"evaluations": 45000, "distinct": 43000, "read": 10000, "read_tuple": 5500, "read_format": 8800, "mutated": 13000,
       "mutated_accepted": 2600, "mutated_refused": 9800, "write": 11000, "write_tuple": 4000, "write_format": 4900, "union": 1400,
       "tagged_directly": 930, "scalar": 1900, "container": 1900, "optional": 270, "class": 1200}


KEYS = ["a", "v", "x", "value", "foo_bar", "type", "", 1, "1"]


def make(r):
    pg = PG(r, depth=r.choice([1, 2, 3]), ncls=(1, 3), max_fields=3, inherit=0.1, rename=0.1, bool_keys=False, untagged=False)
    prog = pg.program()
    tops = []
    for _ in range(5):
        k = r.random()
        if k < 0.2:
            t = pg.scalar()
        elif k < 0.3 and pg.classes:
            t = ClsT(r.choice(pg.classes))
        elif k < 0.5:
            t = pg.union(r.choice([0, 1, 2]))
        else:
            t = pg.ty(r.choice([1, 2, 3]))
        tagging = ("external",)
        direct = None
        if isinstance(t, UnionT) and r.random() < 0.6:
            direct = tagging = r.choice([("external",), ("internal", r.choice(TAGS)), ("adjacent",) + tuple(r.sample(TAGS, 2)), ("untagged",)])
        while direct is None and not isinstance(t, (NoneT, AnyT)) and not (isinstance(t, OptT) and isinstance(t.el, AnyT)) and r.random() < 0.15:
            t = Alias(f"Al{len(prog.decls)}", t)
            prog.decls.append(t)
        w = Cls(f"Hold{len(tops)}", [Fld("v", t)], check="strict", tagging=tagging, explicit_dc=r.random() < 0.3)
        prog.decls.append(w)
        tops.append((t, w, direct))
    return prog, tops


def in_domain_write(t, top=True):
    """The value alone tells how it is written."""
    if isinstance(t, UnionT):
        return top
    if isinstance(t, ClsT):
        return not t.cls.transparent or in_domain_write(t.cls.transparent_field().ty)
    return all(in_domain_write(k, top and isinstance(t, Alias)) for k in t.kids())


def bare(t):
    return bare(t.el) if isinstance(t, Alias) else t


def has_set(t):
    if isinstance(t, (SetT, FrozenSetT)) or (isinstance(t, Bare) and "set" in t.src()):
        return True
    if isinstance(t, AnyT):
        return False
    return any(has_set(k) for k in t.kids())


def case(r, rec, i, cfg):
    prog, tops = make(r)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        for t, w, direct in tops:
            try:
                v = c.value(t, g)
            except Unknown:
                rec.skip("value")
                continue
            rec.event("union" if isinstance(t, UnionT) else "optional" if isinstance(t, OptT) else "class" if isinstance(t, ClsT)
                      else "container" if t.kids() else "scalar")
            if direct:
                rec.event("tagged_directly")
            src = tag_src(direct, t.src()) if direct else t.src()
            env = {**c.ns, **{k: getattr(serde, k) for k in ("InternalTagging", "AdjacentTagging", "Untagged", "ExternalTagging")}}
            typ = eval(src, env)
            if typ is None:
                typ, src = type(None), 'type(None)'
            read(c, rec, r, t, w, typ, src, v)
            write(c, rec, r, t, w, typ, src, v)


def read(c, rec, r, t, w, typ, src, v):
    for k in range(4):
        named = r.random() < 0.8
        try:
            data = t.ser(v, Opts(named=named, reuse=False, sets=True, tagging=w.tagging))
        except (ModelError, Unknown):
            rec.skip("form not determined")
            return
        mutated = k >= 2
        if mutated:
            data = mutate(r, data, KEYS, None)
            rec.event("mutated")
        kind = r.random()
        hold = c.ns[w.name]
        if not named:
            fn, a, b = "from_tuple", data, (data,)
            rec.event("read_tuple")
        elif kind < 0.5:
            fn, a, b = "from_dict", data, {"v": data}
            rec.event("read")
        else:
            fmt = r.choice(["json", "yaml", "msgpack", "pickle", "toml"])
            fn = f"from_{fmt}"
            try:
                a, b = formats.dumps(fmt, data), formats.dumps(fmt, {"v": data})
                if not same(formats.loads(fmt, b)["v"], formats.loads(fmt, a)):
                    rec.skip("document")
                    continue
            except Exception:
                rec.skip("no document")
                continue
            rec.event("read_format")
        f = getattr(serde, fn, None) or getattr(FMT[fn[5:]], fn)
        kw = {}
        if fn in ("from_dict", "from_tuple") and r.random() < 0.3:
            kw["reuse_instances"] = r.choice([True, False])
        if fn in ("from_json", "from_yaml") and r.random() < 0.2:
            kw["coerce_numbers"] = r.choice([True, False])
        x, y = call(f, typ, a, **kw), call(f, hold, b, **kw)
        lines = (f"a = {lit(a) if not isinstance(a, (str, bytes)) else repr(a)}", f"b = {lit(b) if not isinstance(b, (str, bytes)) else repr(b)}",
                 f"print({fn}({w.name}, b, **{kw}).v)", f"print({fn}({src}, a, **{kw}))")
        c.evaluate((fn, repr(lines)))
        if not mutated and y.kind != "ok":
            if "strict_map_key" in str(y.exc):
                rec.skip("map key")
                continue
            if y.kind == "serde" and fn in ("from_json", "from_yaml", "from_toml", "from_msgpack"):
                rec.skip("refused by the field too")      # what the format kept is P02's matter
                if x.kind == "ok":
                    continue
            elif kw.get("reuse_instances"):
                rec.skip("refused by the field too")
            else:
                c.fail(f"{fn} of a class with a field of {src}: it {y!r}", *lines)
        if mutated:
            rec.event("mutated_accepted" if y.kind == "ok" else "mutated_refused")
        if y.kind == "ok":
            if mutated:
                m = expect(t.de, data, Opts(named=named, tagging=w.tagging, check="direct"))
                if m.kind != "ok" or not same(m.v, y.v.v):
                    rec.skip("not well-typed")      # type checks sample
                    continue
            if x.kind != "ok" or not same(x.v, y.v.v):
                c.fail(f"{fn}({src}) {x!r} but a field of that type gets {short(y.v.v)}", *lines)
        elif x.kind not in ("ok", "serde") and y.kind == "serde":
            c.fail(f"{fn}({src}) {x!r} but with a field of that type it {y!r}", *lines)


def write(c, rec, r, t, w, typ, src, v):
    if not in_domain_write(t):
        rec.skip("type needed")
        return
    union = isinstance(bare(t), UnionT)
    hold = c.ns[w.name]
    for _ in range(3):
        kw = {"convert_sets": has_set(t) or r.random() < 0.5, "reuse_instances": r.random() < 0.5 and not any(isinstance(k, AnyT) for k in t.walk())}
        named = r.random() < 0.8
        skw = dict(kw)
        if r.random() < 0.3 and named:
            fmt = r.choice(["json", "yaml", "msgpack", "pickle", "toml"])
            fn = f"to_{fmt}"
            f = getattr(FMT[fmt], fn)
            skw.pop("reuse_instances", None)
            cn = "cls"
            rec.event("write_format")
        else:
            fn = "to_dict" if named else "to_tuple"
            f = getattr(serde, fn)
            cn, fmt = "c", None
            rec.event("write" if named else "write_tuple")
        if fmt:
            skw.pop("convert_sets", None)
            if has_set(t) and fmt in ("msgpack", "toml", "pickle", "yaml"):
                rec.skip("sets in formats")
                continue
        y = call(f, hold(v), **skw)
        dkw = dict(skw)
        if union or r.random() < 0.2:
            dkw[cn] = typ
        x = call(f, v, **dkw)
        shown = ", ".join(f"{k}={src if k == cn else repr(z)}" for k, z in dkw.items())
        lines = (f"v = {lit(v)}", f"print({fn}({w.name}(v), **{skw}))", f"print({fn}(v, {shown}))")
        c.evaluate((fn, repr(lines)))
        if y.kind == "ok" and x.kind == "ok":
            a, b = x.v, y.v
            if fmt:
                try:
                    a, b = formats.loads(fmt, a), formats.loads(fmt, b)
                except Exception:
                    rec.skip("document")
                    continue
            if fn == "to_dict" and "v" not in b and a is None:
                continue
            b = b["v"] if isinstance(b, dict) else b[0]
            if not same(a, b):
                c.fail(f"{fn}(value of {src}) gave {short(a)} but a field of that type is written as {short(b)}", *lines)
        elif y.kind == "ok":
            if fmt == "toml":
                rec.skip("no document")
                continue
            c.fail(f"{fn}(value of {src}) {x!r} but a field of that type is written as {short(y.v)}", *lines)
        elif not fmt:
            c.fail(f"{fn} of a class with a field of {src}: it {y!r}", *lines)
        else:
            rec.skip("no document")
