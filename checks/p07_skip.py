"""P07: skip, skip_serializing, skip_deserializing, conditional and class-wide skipping, skip_none."""
import serde

from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect, opts_src
from lib.spec import (Bool, ClsT, DictT, EnumT, Float, Int, ListT, ModelError, OptT, Opts, SetT, Str, TupleT, Unknown, VarTupleT,
                      lit, same)

PROP = "P07"
BUDGET = {"quick": 4500, "thorough": 90000}
CHUNK = 50
RULE = "distinct (program, value, options) whose dict form was compared, and inputs whose decoding was compared"
MIN = {"evaluations": 23000, "distinct": 20000, "left_out": 8800, "kept": 23000, "input": 8400, "skip_none": 3900}

PREDS = [("lambda v: v == 1", lambda v: v == 1), ("lambda v: not v", lambda v: not v), ("lambda v: bool(v)", lambda v: bool(v)),
         ("lambda v: False", lambda v: False), ("lambda v: True", lambda v: True), ("lambda v: v is None", lambda v: v is None),
         ("lambda v: v == 'a' or v == []", lambda v: v == "a" or v == [])]
PLAIN = (Int, Str, Bool, Float)


def plainish(t):
    if isinstance(t, OptT):
        return plainish(t.el)
    if isinstance(t, ListT):
        return isinstance(t.el, PLAIN)
    return isinstance(t, PLAIN)


def truthy(t):
    """bool(value) == bool(serialized form)"""
    if isinstance(t, OptT):
        return truthy(t.el)
    return isinstance(t, PLAIN + (ListT, SetT, VarTupleT, TupleT)) or type(t) is DictT


def add_skips(r, pg, c):
    for f in c.fields:
        k = r.random()
        if k < 0.45:
            continue
        if not f.has_default():
            pg.add_default(f)
        d = f.has_default()
        ch = ["skip_ser", "default", "default", "none"]
        if d:
            ch += ["skip", "skip_de", "both"]
        if plainish(f.ty):
            ch += ["if", "if", "if"]
        if truthy(f.ty):
            ch += ["false", "false"]
        for x in {r.choice(ch), r.choice(ch) if r.random() < 0.3 else None}:
            if x == "skip":
                f.skip = True
            elif x == "skip_ser":
                f.skip_ser = True
            elif x == "skip_de":
                f.skip_de = True
            elif x == "both":
                f.skip_ser = f.skip_de = True
            elif x == "if":
                f.skip_if = r.choice(PREDS)
            elif x == "false":
                f.skip_if_false = r.random() < 0.85
            elif x == "none":
                f.skip_if_none = r.random() < 0.75
            elif x == "default":
                f.skip_if_default = r.random() < 0.75
    c.fields.sort(key=lambda f: f.has_default()) if not c.kw_only else None


class SkipPG(PG):
    def __init__(self, r, **k):
        super().__init__(r, **{"override": 0.0, **k})

    def cls(self, *a, **k):
        c = super().cls(*a, **k)
        if c.decorator != "plain" and not c.transparent:
            add_skips(self.r, self, c)
        return c


def case(r, rec, i, cfg):
    pg = SkipPG(r, depth=r.choice([1, 2, 2, 3]), defaults=0.5, class_skip=0.25, inherit=0.2, max_fields=6, plain=0.05, any=False,
                rename=0.1)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.4)
        for cl in cls_nodes(prog)[::-1][:2]:
            base = ClsT(cl)
            top = base
            if r.random() < 0.25:
                top = r.choice([ListT(base), DictT(Str(), base), base if nullable(base) else OptT(base), TupleT([base, Str()])])
            for _ in range(3):
                one(c, rec, r, cl, base, top, g)


def one(c, rec, r, cl, base, top, g):
    v = c.value(top, g)
    kw = {}
    if r.random() < 0.4:
        kw["skip_none"] = r.random() < 0.8
    if r.random() < 0.3:
        kw["reuse_instances"] = r.random() < 0.5
    if r.random() < 0.3:
        kw["convert_sets"] = r.random() < 0.5
    c.lines = [f"v = {lit(v)}"]
    o = Opts(reuse=kw.get("reuse_instances"), sets=kw.get("convert_sets"), skip_none=kw.get("skip_none", False))
    exp = expect(top.ser, v, o)
    out = call(serde.to_dict, v, **kw)
    c.must(exp, out, "to_dict", f"print(to_dict(v{opts_src(kw)}))", order=True)
    if kw.get("skip_none"):
        rec.event("skip_none")
    if exp.kind == "ok" and top is base and isinstance(exp.v, dict):
        rec.event("kept", len(exp.v))
        rec.event("left_out", sum(not f.classvar for f in cl.all_fields()) - len(exp.v))
    if r.random() < 0.25:
        # through a format, where skip_none is an option of the call as well
        fmt = r.choice(["json", "yaml", "toml", "msgpack", "pickle"])
        sn = r.random() < 0.6
        exp = expect(top.ser, v, formats.ser_opts(fmt, skip_none=sn))
        if exp.kind == "ok":
            try:
                want = formats.norm(formats.loads(fmt, formats.dumps(fmt, exp.v)))
            except Exception:
                return
            to = f"to_{fmt}"
            doc = c.ok(call(getattr(FMT[fmt], to), v, skip_none=sn), to, f"print({to}(v, skip_none={sn}))")
            got = formats.norm(formats.loads(fmt, doc))
            c.evaluate((fmt, lit(v), sn))
            if not same(want, got):
                c.fail(f"{to}(v, skip_none={sn}) holds {lit(got)} instead of {lit(want)}", f"print({to}(v, skip_none={sn}))")
    # input: every key present, and the skipped ones take their defaults all the same
    if top is not base or cl.transparent:
        return
    data = {}
    for f in cl.all_fields():
        if f.classvar or r.random() < 0.15 and f.has_default():
            continue
        try:
            data[cl.wire_name(f)] = f.ty.ser(c.value(f.ty, g), cl.own_opts(Opts(reuse=False, sets=True)))
        except (ModelError, Unknown):
            return
    c.must(expect(base.de, data, Opts()), call(serde.from_dict, c.ns[cl.name], data), "from_dict",
           f"print(from_dict({cl.name}, {lit(data)}))")
    rec.event("input")
