"""P02: from_X(to_X(v)) == v in every format, or an exception if the format cannot hold the value."""
from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.runner import Skip
from lib.spec import AnyT, Bare, ClsT, DictT, Float, ListT, ModelError, OptT, Str, TupleT, Unknown, VarTupleT, lit, same

PROP = "P02"
BUDGET = {"quick": 3200, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, value, format) whose round trip was compared, or whose unrepresentable value had to be refused"
MIN = {"evaluations": 16000, "distinct": 16000, "rt_json": 2600, "rt_yaml": 2500, "rt_toml": 1500, "rt_msgpack": 2200,
       "rt_msgpack_tuple": 2200, "rt_pickle": 2700, "refused": 2600}


def case(r, rec, i, cfg):
    loose = r.random() < 0.2
    pg = PG(r, depth=r.choice([1, 2, 3, 3, 4]), any=loose, bare=loose, nasty_names=r.random() < 0.3, rename=0.2,
            alias=0.05, tuple_keys=False, max_fields=6)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, nasty_floats=r.random() < 0.2, big=r.random() < 0.1)
        for cl in cls_nodes(prog)[::-1][:2]:
            base = ClsT(cl)
            top = base
            if r.random() < 0.25:
                top = r.choice([ListT(base), DictT(Str(), base), TupleT([base, Str()]),
                                base if nullable(base) else OptT(base), VarTupleT(base)])
            v = c.value(top, g)
            typ = eval(top.src(), c.ns)
            for fmt in formats.FORMATS:
                one(c, rec, top, typ, v, fmt)


def one(c, rec, top, typ, v, fmt):
    to, fr, kw = formats.names(fmt)
    mod = FMT[fmt.split("_")[0]]
    ks = "".join(f", {k}={x}" for k, x in kw.items())
    c.lines = [f"v = {lit(v)}"]
    lines = [f"d = {to}(v{ks})", "print(d)", f"print({fr}({top.src()}, d{ks}))"]
    try:
        w = top.ser(v, formats.ser_opts(fmt))
    except (ModelError, Unknown):
        rec.skip("serialized form not determined")
        return
    try:
        ext = formats.loads(fmt, formats.dumps(fmt, w))
    except Exception as e:
        # the format's own library refuses the value
        out = call(getattr(mod, to), v, **kw)
        if out.kind == "ok":
            # the reader may be what refuses it
            out = call(getattr(mod, fr), typ, out.v, **kw)
            if out.kind == "ok" and not same(out.v, v):
                c.fail(f"{fmt}: the format library cannot represent the value ({type(e).__name__}), "
                       f"but a different value came back: {lit(out.v)}", *lines)
        c.evaluate((fmt, "refuse", lit(v)))
        rec.event("refused")
        return
    exp = expect(top.de, ext, formats.de_opts(fmt))
    if exp.kind == "reject":
        # what is written is not data of the type
        out = call(getattr(mod, to), v, **kw)
        if out.kind == "ok":
            out = call(getattr(mod, fr), typ, out.v, **kw)
        c.evaluate((fmt, "not data", lit(v)))
        rec.event("not_data")
        if out.kind == "ok" and not same(out.v, v):
            c.fail(f"{fmt}: a different value came back: {lit(out.v)}", *lines)
        return
    if exp.kind != "ok" or not same(exp.v, v):
        rec.skip(f"{fmt} loses information about the value")
        return
    d = c.ok(call(getattr(mod, to), v, **kw), f"{to} of a representable value", *lines)
    v2 = c.ok(call(getattr(mod, fr), typ, d, **kw), f"{fr} of what {to} gave", *lines)
    c.evaluate((fmt, lit(v)))
    rec.event("rt_" + fmt)
    if not same(v, v2):
        c.fail(f"{fr}({to}(v)) differs from v: {lit(v2)}", *lines)
