"""P23: integers (and, in YAML, numeric texts) become floats where a float is declared; numeric dict keys survive textual keys."""
import json

import serde
import yaml
from serde import SerdeError

from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import (Bool, Cls, ClsT, CounterT, DefaultDictT, DequeT, DictT, EnumT, Fld, Float, Int, ListT, ModelError, NewT, OptT, Opts, PrimSub,
                      Program, SetT, Str, TVar, TupleT, UnionT, Unknown, VarTupleT, lit, same)

PROP = "P23"
BUDGET = {"quick": 3500, "thorough": 80000}
CHUNK = 50
RULE = "distinct (program, number data, coercion setting) read, or (program, value with numeric keys, format) round trips"
MIN = {"evaluations": 27000, "distinct": 26000, "accepts": 21000, "rejects": 3600, "int_for_float": 37000, "text_for_float": 3000,
       "bool_for_float": 1900, "junk_for_float": 980, "coercion_off": 2100, "converter": 4700, "numeric_keys": 1800,
       "textual_keys": 1700, "bad_key": 1800, "positional": 3200, "top_container": 1900}


class NumPG(PG):
    """Programs in which most scalars are floats."""

    def scalar(self, keyable=False, hashable=False):
        r = self.r
        if keyable:
            return self.numkey()
        k = r.random()
        if k < 0.55:
            return Float()
        if k < 0.65:
            n = NewT(self.name() + "N", Float)
            self.decls.append(n)
            return n
        if k < 0.75:
            n = PrimSub(self.name() + "S", r.choice([Float, Float, Int]))
            self.decls.append(n)
            return n
        return r.choice([Int, Int, Str, Bool])()

    def numkey(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return Int()
        if k < 0.6:
            return Float()
        if k < 0.85:
            e = EnumT(self.name() + "E", r.choice(["_e.IntEnum", "_e.IntEnum", "int, _e.Enum", "_e.Enum"]),
                      list(zip(["A", "B", "C"], r.sample([0, 1, 2, 3, 10, -1], 3))))
            self.decls.append(e)
            return e
        if k < 0.92:
            n = NewT(self.name() + "N", r.choice([Int, Float]))
            self.decls.append(n)
            return n
        return Str()


def case(r, rec, i, cfg):
    pg = NumPG(r, depth=r.choice([1, 2, 3]), any=False, bare=False, sets=False, max_fields=4, ncls=(1, 3), check=("strict", "strict", "disabled", "coerce"),
               future=0.05, plain=0.1, transparent=0.1, rename=0.1, alias=0.0, taggings=("external", "internal", "adjacent", "untagged"))
    prog = pg.program()
    box = None
    if r.random() < 0.25:
        box = Cls("TBox", [Fld("it", r.choice([lambda: TVar("T"), lambda: ListT(TVar("T")), lambda: DictT(Int(), TVar("T"))])())], tvars=["T"])
        prog.decls.append(box)
        prog.header += "T = _t.TypeVar('T')\n"
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        tops = [ClsT(cl) for cl in cls_nodes(prog)[::-1][:3] if not cl.tvars]
        t = r.choice(tops)
        tops.append(r.choice([lambda: ListT(t), lambda: DictT(Int(), t), lambda: DictT(Float(), t), lambda: TupleT([t, Float()]), lambda: ListT(Float()),
                              lambda: DictT(Str(), ListT(Float())), lambda: OptT(Float()), lambda: DictT(Int(), DictT(Float(), Int())), Float,
                              lambda: VarTupleT(Float()), lambda: DequeT(Float()), lambda: CounterT(Int()), lambda: DefaultDictT(Int(), ListT(Float()))])())
        if box:
            tops.append(ClsT(box, [r.choice([Float, lambda: ListT(Float()), lambda: DictT(Int(), Float()), lambda: t, lambda: OptT(Float())])()]))
        for top in tops:
            if not isinstance(top, ClsT):
                rec.event("top_container")
            v = c.value(top, g)
            numbers(c, rec, r, top, v)
            keys(c, rec, r, top, v)


def swap(r, rec, w, text, state):
    """Other spellings in place of numbers."""
    if isinstance(w, dict):
        return {k: swap(r, rec, x, text, state) for k, x in w.items()}
    if isinstance(w, (list, tuple)):
        return [swap(r, rec, x, text, state) for x in w]
    if isinstance(w, bool) or not isinstance(w, (int, float)):
        return w
    if isinstance(w, int):
        if state["junk"] and r.random() < 0.1:
            return float(r.choice([1, 2]))
        return w
    k = r.random()
    if k < 0.55:
        rec.event("int_for_float")
        return r.choice([0, 1, -1, 3, 7, 2**53, 10**15, -(2**31), 12345678901234567890])
    if k < 0.7 and text:
        rec.event("text_for_float")
        return r.choice(["1e3", "1e-3", "2", "-4.5", "nan", "inf", "1_0", " 3 ", "+5"])
    if not state["junk"]:
        return w
    if k < 0.8:
        state["junk"] -= 1
        rec.event("bool_for_float")
        return r.choice([True, False])
    if k < 0.9:
        state["junk"] -= 1
        rec.event("junk_for_float")
        return r.choice(["x", "", "1,5", None, [], {}, [1.0], "1e", "0x10"])
    return w


def numbers(c, rec, r, top, v):
    typ = eval(top.src(), c.ns)
    for _ in range(4):
        named = r.random() < 0.85
        e = expect(top.ser, v, Opts(named=True, reuse=False, sets=True))
        if e.kind != "ok":
            rec.skip("form not determined")
            return
        fmt = r.choice(["json", "yaml", "dict", "msgpack", "toml"])
        data = swap(r, rec, e.v, fmt == "yaml" or r.random() < 0.2, {"junk": r.choice([0, 0, 0, 1])})
        if fmt == "dict":
            converter(c, rec, r, top, typ, v)
            continue
        try:
            doc = formats.dumps(fmt, data)
            ext = formats.loads(fmt, doc)
        except Exception:
            rec.skip("no document")
            continue
        kw = {}
        num = {"json": "json", "yaml": "yaml"}.get(fmt)
        if fmt in ("json", "yaml") and r.random() < 0.45:
            kw["coerce_numbers"] = r.choice([True, False])
            if not kw["coerce_numbers"]:
                num = None
                rec.event("coercion_off")
        exp = expect(top.de, ext, Opts(reuse=False, num=num, check="direct"))
        out = call(getattr(FMT[fmt], f"from_{fmt}"), typ, doc, **kw)
        c.must(exp, out, f"from_{fmt}", f"d = {doc!r}", f"print(from_{fmt}({top.src()}, d, **{kw}))")


def converter(c, rec, r, top, typ, v):
    """A converter given by the caller sees every float, and only floats."""
    seen = []

    def conv(x):
        seen.append(x)
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            raise SerdeError(f"not a number: {x!r}")
        return float(x)

    named = r.random() < 0.7
    o = Opts(named=named, reuse=False, sets=True)
    e = expect(top.ser, v, o)
    if e.kind != "ok":
        return
    rec.event("converter")
    if not named:
        rec.event("positional")
    data = swap(r, rec, e.v, False, {"junk": r.choice([0, 0, 1])})
    if not named and isinstance(e.v, tuple):
        data = tuple(data)
    fr = serde.from_dict if named else serde.from_tuple
    exp = expect(top.de, data, Opts(named=named, num="json", check="direct"))
    out = call(fr, typ, data, deserialize_numbers=conv)
    ln = ("def conv(x):", "    if isinstance(x, bool) or not isinstance(x, (int, float)): raise SerdeError(f'not a number: {x!r}')",
          "    return float(x)", f"print({fr.__name__}({top.src()}, {lit(data)}, deserialize_numbers=conv))")
    c.must(exp, out, fr.__name__, *ln)


def text_keys(w):
    if isinstance(w, dict):
        return {(str(k) if isinstance(k, (int, float)) and not isinstance(k, bool) else k): text_keys(x) for k, x in w.items()}
    if isinstance(w, (list, tuple)):
        return [text_keys(x) for x in w]
    return w


def has_numkeys(w):
    if isinstance(w, dict):
        return any(isinstance(k, (int, float)) for k in w) or any(map(has_numkeys, w.values()))
    return isinstance(w, (list, tuple)) and any(map(has_numkeys, w))


def spoil(r, w):
    """One numeric-looking key becomes one that is no number."""
    if isinstance(w, dict) and w:
        k = r.choice(list(w))
        out = dict(w)
        if r.random() < 0.5:
            out[k] = spoil(r, w[k])
        else:
            out[r.choice(["x", "", "1.5.2", "one"])] = out.pop(k)
        return out
    if isinstance(w, list) and w:
        n = r.randrange(len(w))
        return w[:n] + [spoil(r, w[n])] + w[n + 1:]
    return w


def keys(c, rec, r, top, v):
    typ = eval(top.src(), c.ns)
    e = expect(top.ser, v, Opts(named=True, reuse=False, sets=True))
    if e.kind != "ok" or not has_numkeys(e.v):
        return
    rec.event("numeric_keys")
    exp = expect(top.de, e.v, Opts(named=True, reuse=False, check="direct"))
    data = text_keys(e.v)
    back = expect(top.de, data, Opts(named=True, reuse=False, check="direct"))
    if exp.kind == "ok" and back.kind == "ok":
        rec.event("textual_keys")
    c.must(back, call(serde.from_dict, typ, data, reuse_instances=False), "from_dict", f"print(from_dict({top.src()}, {lit(data)}, reuse_instances=False))")
    if exp.kind == "ok":
        for fmt in ("json", "yaml"):
            try:
                ext = formats.loads(fmt, formats.dumps(fmt, e.v))
            except Exception:
                continue
            want = expect(top.de, ext, formats.de_opts(fmt, check="direct"))
            if want.kind != "ok" or not same(want.v, exp.v):
                continue
            d = call(getattr(FMT[fmt], f"to_{fmt}"), v)
            if d.kind != "ok":
                c.fail(f"to_{fmt} {d!r}", f"v = {lit(v)}", f"print(to_{fmt}(v))")
            c.must(exp, call(getattr(FMT[fmt], f"from_{fmt}"), typ, d.v), f"from_{fmt}", f"print(from_{fmt}({top.src()}, {d.v!r}))")
    bad = spoil(r, data)
    rec.event("bad_key")
    c.must(expect(top.de, bad, Opts(reuse=False, check="direct")), call(serde.from_dict, typ, bad, reuse_instances=False), "from_dict",
           f"print(from_dict({top.src()}, {lit(bad)}, reuse_instances=False))")
    # positional form, textual keys
    e = expect(top.ser, v, Opts(named=False, reuse=False, sets=True))
    if e.kind == "ok":
        data = text_keys(e.v)
        rec.event("positional")
        c.must(expect(top.de, data, Opts(named=False, check="direct")), call(serde.from_tuple, typ, data), "from_tuple", f"print(from_tuple({top.src()}, {lit(data)}))")
