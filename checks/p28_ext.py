"""P28: MessagePack extension types name the class by a code and carry the whole object."""
import random

import msgpack
import serde.msgpack as sm

from checks.p14_malformed import mutate
from lib.gen import Gen, PG
from lib.oracle import Case, call, cls_nodes, expect
from lib.spec import Bool, ClsT, DateT, Float, Int, ModelError, Opts, Str, StrSer, Unknown, lit, same

PROP = "P28"
BUDGET = {"quick": 2500, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, table, object or bytes, options) written or read as an extension"
MIN = {}

KEYS = ["a", "v", "x", "value", "foo_bar", "type", "", 1]


def program(r):
    pg = PG(r, depth=r.choice([1, 2, 3]), ncls=(2, 4), inherit=0.3, override=0.5, rename=0.2, plain=0.2, class_skip=0.1, max_fields=4)
    prog = pg.program()
    return prog, pg


def case(r, rec, i, cfg):
    prog, pg = program(r)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        types = [ClsT(x) for x in pg.classes]
        if r.random() < 0.3:
            types += r.sample([Int(), Str(), Float(), Bool(), DateT("_dt.datetime"), StrSer("_dec.Decimal"), StrSer("_u.UUID")], 2)
        codes = r.sample(sorted({0, 1, 5, 126, 127, r.randint(0, 127), *range(40, 60)}), len(types))
        known = [k for k in range(len(types)) if r.random() < 0.85]
        env = {**c.ns}
        py = [eval(t.src(), env) for t in types]
        table = {py[k]: codes[k] for k in known}
        back = {codes[k]: py[k] for k in known}
        src = "{" + ", ".join(f"{types[k].src()}: {codes[k]}" for k in known) + "}"
        back_src = "{" + ", ".join(f"{codes[k]}: {types[k].src()}" for k in known) + "}"
        for k, t in enumerate(types):
            for _ in range(2):
                try:
                    v = c.value(t, g)
                except Unknown:
                    rec.skip("value")
                    continue
                if type(v) is not py[k]:
                    continue
                write(c, rec, r, t, k, py, codes, known, v, table, back, src, back_src, types)


def write(c, rec, r, t, k, py, codes, known, v, table, back, src, back_src, types):
    named = r.random() < 0.6
    kw = {} if named and r.random() < 0.5 else {"named": named}
    if r.random() < 0.2:
        kw["skip_none"] = r.choice([True, False])
    if r.random() < 0.2:
        kw["convert_sets"] = True
    if r.random() < 0.2:
        kw["use_bin_type"] = True
    if r.random() < 0.2:
        kw["use_single_float"] = r.choice([True, True, False])
    if r.random() < 0.15:
        kw["cls"] = None
    if r.random() < 0.1:
        kw["reuse_instances"] = False
    rk = {} if "named" not in kw else {"named": named}
    if r.random() < 0.6:
        rk["strict_map_key"] = False
    if r.random() < 0.3:
        rk["use_list"] = r.choice([True, False])
    if r.random() < 0.1:
        rk["max_str_len"] = 10 ** 6
    what = f"to_msgpack(v, ext_dict={src}, **{kw})"
    lines = [f"v = {lit(v)}", f"kw, rk = {kw}, {rk}", f"p = to_msgpack(v, ext_dict={src}, **kw)", "print(p)"]
    out = call(sm.to_msgpack, v, ext_dict=dict(table), **kw)
    if k not in known:
        rec.event("class_not_registered")
        c.evaluate((what, lit(v)))
        if out.kind != "serde":
            c.fail(f"{what}: the class is not registered but it {out!r}", *lines)
        return
    plain = call(sm.to_msgpack, v, **kw)
    c.evaluate((what, lit(v)))
    if out.kind != plain.kind or (plain.exc is not None and type(plain.exc) is not type(out.exc)):
        c.fail(f"{what}: without ext_dict it {plain!r} but with it {out!r}", *lines)
    if plain.kind != "ok":
        rec.skip("not for MessagePack")
        return
    rec.event("written")
    rec.event("written_named" if named else "written_positional")
    ext = msgpack.unpackb(out.v)
    if not isinstance(ext, msgpack.ExtType) or ext.code != codes[k]:
        c.fail(f"{what}: expected an extension of code {codes[k]} but got {ext!r}", *lines)
    if len(ext.data) != len(plain.v):
        c.fail(f"{what}: the extension carries {len(ext.data)} bytes but the object is written as {len(plain.v)}", *lines)
    if ext.data != plain.v:
        a, b = (call(msgpack.unpackb, x, strict_map_key=False, use_list=False) for x in (ext.data, plain.v))
        if a.kind != b.kind or not same(a.v, b.v):
            c.fail(f"{what}: the extension carries {a!r} but the object is {b!r}", *lines)
    try:
        form = t.ser(v, Opts(named=named, reuse=False, sets=True, skip_none=named and kw.get("skip_none", False)))
        content = msgpack.unpackb(msgpack.packb(form, use_single_float=kw.get("use_single_float", False)), strict_map_key=False, use_list=False)
        got = msgpack.unpackb(ext.data, strict_map_key=False, use_list=False)
        rec.event("content")
        if not same(content, got):
            c.fail(f"{what}: the extension should carry {lit(content)} but carries {lit(got)}", *lines)
    except (ModelError, Unknown):
        rec.skip("form not determined")
    except (ValueError, TypeError, OverflowError):
        pass
    read(c, rec, r, out.v, plain.v, back, back_src, codes[k], py[k], rk, lines, v=v)
    # the code alone selects the class
    other = r.choice(known)
    if py[other] is not py[k]:
        b = msgpack.packb(msgpack.ExtType(codes[other], ext.data))
        rec.event("other_code")
        read(c, rec, r, b, ext.data, back, back_src, codes[other], py[other], rk, lines)
    if r.random() < 0.5:
        try:
            data = msgpack.packb(mutate(r, msgpack.unpackb(ext.data, strict_map_key=False), KEYS, None))
        except Exception:
            data = None
        if data is not None:
            rec.event("mutated")
            read(c, rec, r, msgpack.packb(msgpack.ExtType(codes[k], data)), data, back, back_src, codes[k], py[k], rk, lines)
    # codes that are not registered, and data that is no extension
    if r.random() < 0.4:
        free = r.choice([x for x in range(128) if x not in back])
        b = msgpack.packb(msgpack.ExtType(free, ext.data))
        res = call(sm.from_msgpack, r.choice([None, py[k]]), b, ext_dict=dict(back), **rk)
        rec.event("code_not_registered")
        c.evaluate((what, "code", b))
        if res.kind != "serde":
            c.fail(f"from_msgpack with ext_dict={back_src}: code {free} is not registered but it {res!r}", *lines,
                   f"print(from_msgpack(None, {b!r}, ext_dict={back_src}, **rk))")
    if r.random() < 0.4:
        res = call(sm.from_msgpack, py[k], plain.v, ext_dict=dict(back), **rk)
        rec.event("no_extension")
        c.evaluate((what, "no extension", plain.v))
        if res.kind != "serde" and "strict_map_key" not in str(res.exc):
            c.fail(f"from_msgpack with ext_dict={back_src}: the data is no extension but it {res!r}", *lines,
                   f"print(from_msgpack(None, {plain.v!r}, ext_dict={back_src}, **rk))")


def read(c, rec, r, data, inner, back, back_src, code, typ, rk, lines, v=None):
    arg = r.choice([None, typ, int, *back.values()])
    seed = r.random()
    random.seed(seed)       # beartype looks at one element chosen with this
    a = call(sm.from_msgpack, typ, inner, **rk)
    random.seed(seed)
    b = call(sm.from_msgpack, arg, data, ext_dict=dict(back), **rk)
    rec.event("read_ok" if a.kind == "ok" else "read_refused")
    what = f"from_msgpack({getattr(arg, '__name__', arg)}, code {code}, ext_dict={back_src}, **{rk})"
    more = [f"print(from_msgpack({getattr(arg, '__name__', arg)}, {data!r}, ext_dict={back_src}, **rk))"]
    c.evaluate((what, data))
    if a.kind != b.kind or (a.kind == "ok" and not same(a.v, b.v)) or (a.kind != "ok" and type(a.exc) is not type(b.exc)):
        c.fail(f"{what}: the content alone {a!r} but the extension {b!r}", *lines, *more)
    if a.kind == "ok" and type(b.v) is not typ and v is not None:
        c.fail(f"{what}: expected an instance of {typ.__name__} but it {b!r}", *lines, *more)
