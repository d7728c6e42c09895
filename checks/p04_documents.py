"""P04: documents carry the dict form; options, custom (de)serializer classes, text and bytes."""
import json
import pickle
import pickletools

import msgpack
import yaml

import serde
from serde.de import Deserializer
from serde.se import Serializer

from lib import formats
from lib.gen import Gen, PG, nullable
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import ClsT, DictT, ListT, ModelError, OptT, Str, TupleT, Unknown, lit, same

PROP = "P04"
BUDGET = {"quick": 2000, "thorough": 45000}
CHUNK = 50
RULE = "distinct (program, value, format, call variant) whose document or result was compared"
MIN = {"evaluations": 24000, "distinct": 24000, "document": 6600, "library_option": 2600, "custom_se": 7300, "custom_de": 6900,
       "bytes": 1100}


def rec_se():
    class Rec(Serializer):
        seen = []

        @classmethod
        def serialize(cls, obj, **opts):
            cls.seen.append((obj, opts))
            return ("document", len(cls.seen))
    Rec.seen = []
    return Rec


def rec_de(value):
    class Rec(Deserializer):
        seen = []

        @classmethod
        def deserialize(cls, data, **opts):
            cls.seen.append((data, opts))
            return value
    Rec.seen = []
    return Rec


def lib_options(fmt, r):
    """Keyword options of the raw library: (options for to_, raw writer)."""
    if fmt == "json":
        oj = formats.orjson()
        if oj:
            o = r.choice([oj.OPT_INDENT_2, oj.OPT_SORT_KEYS | oj.OPT_NON_STR_KEYS, oj.OPT_APPEND_NEWLINE, oj.OPT_STRICT_INTEGER])
            return {"option": o}, lambda w: oj.dumps(w, option=o | oj.OPT_NON_STR_KEYS).decode()
        kw = r.choice([{"indent": 2, "separators": (",", ": ")}, {"sort_keys": True, "separators": (",", ":")},
                       {"ensure_ascii": True, "separators": (", ", ": ")}, {"allow_nan": False, "separators": (",", ":")},
                       {"indent": 1, "ensure_ascii": False, "separators": (",", ":"), "sort_keys": False}])
        return kw, lambda w: json.dumps(w, **{"ensure_ascii": False, **kw})
    if fmt == "yaml":
        kw = r.choice([{"sort_keys": False}, {"default_flow_style": True}, {"allow_unicode": True, "width": 30},
                       {"indent": 6, "explicit_start": True}, {"canonical": True}, {"default_style": '"'}])
        return kw, lambda w: yaml.safe_dump(w, **kw)
    if fmt == "toml":
        kw = r.choice([{"multiline_strings": True}, {"indent": 2}])
        return kw, lambda w: formats.dumps("toml", w, **kw)
    if fmt.startswith("msgpack"):
        kw = r.choice([{"use_single_float": True}, {"strict_types": False}, {"use_bin_type": False}])
        return kw, lambda w: msgpack.packb(w, **{"use_bin_type": True, **kw})
    kw = r.choice([{"protocol": p} for p in range(6)])
    return kw, lambda w: pickle.dumps(w, **kw)


def case(r, rec, i, cfg):
    pg = PG(r, bool_keys=False, depth=r.choice([1, 2, 3, 3]), nasty_names=r.random() < 0.3, alias=0.05, max_fields=6,
            sets_default=0.25, reuse_default=0.25)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, nasty_floats=False)
        for cl in cls_nodes(prog)[::-1][:2]:
            base = ClsT(cl)
            top = base
            if r.random() < 0.25:
                top = r.choice([ListT(base), DictT(Str(), base), TupleT([base, Str()]), base if nullable(base) else OptT(base)])
            v = c.value(top, g)
            typ = eval(top.src(), c.ns)
            for fmt in r.sample(formats.FORMATS, 4):
                try:
                    document(c, rec, r, top, typ, v, fmt)
                    custom(c, rec, r, top, typ, v, fmt)
                except (ModelError, Unknown):
                    rec.skip("form not determined")


def flags(r, fmt):
    """Documented keyword options of to_<fmt>, and the same for the model."""
    kw, m = {}, {}
    if r.random() < 0.35:
        for k, mk in (("reuse_instances", "reuse"), ("convert_sets", "sets"), ("skip_none", "skip_none")):
            if mk == "sets" and fmt != "pickle":
                continue            # sets exist in no other format
            if mk == "reuse" and fmt not in ("pickle", "yaml", "toml"):
                continue
            if r.random() < 0.5:
                kw[k] = m[mk] = r.random() < 0.5
    return kw, m


def document(c, rec, r, top, typ, v, fmt):
    to, fr, kw = formats.names(fmt)
    mod = FMT[fmt.split("_")[0]]
    fl, m = flags(r, fmt)
    kw = {**kw, **fl}
    so = formats.ser_opts(fmt, **m)
    if not so.named:
        so.skip_none = False
    w = top.ser(v, so)
    opts, raw = ({}, None)
    if r.random() < 0.4:
        opts, raw = lib_options(fmt, r)
    ks = "".join(f", {k}={x!r}" for k, x in {**kw, **opts}.items())
    c.lines = [f"v = {lit(v)}"]
    lines = [f"print({to}(v{ks}))"]
    try:
        want = raw(w) if raw else formats.dumps(fmt, w)
    except Exception:
        rec.skip("the format's library refuses the value")
        return
    doc = c.ok(call(getattr(mod, to), v, **kw, **opts), f"{to} of a representable value", *lines)
    if type(doc) is not (str if fmt in ("json", "yaml", "toml") else bytes):
        c.fail(f"{to} returned a {type(doc).__name__}", *lines)
    c.evaluate((fmt, lit(v), ks))
    rec.event("document")
    if opts:
        rec.event("library_option")
        if doc != want and not (fmt == "pickle" and proto(doc) == proto(want)):
            c.fail(f"{to} with {opts} gave\n{doc!r}\nbut the library itself gives for the dict form\n{want!r}", *lines)
    else:
        kl = {"strict_map_key": False} if fmt.startswith("msgpack") else {}
        a, b = formats.loads(fmt, doc, **kl), formats.loads(fmt, want, **kl)
        if fmt == "json":
            a, b = formats.norm(a), formats.norm(b)
        if not same(a, b):
            c.fail(f"{to}: the document parses to {lit(a)} but the dict form is {lit(w)}", *lines)
        reader_option(c, rec, top, typ, fmt, fr, mod, kw, doc, want)
        # a file written with the other defaults still carries the same data: text and bytes alike
        if fmt in ("json", "yaml") and not kw:
            x = call(getattr(mod, fr), typ, doc)
            y = call(getattr(mod, fr), typ, doc.encode())
            rec.event("bytes")
            c.evaluate((fmt, lit(v), "bytes"))
            if x.kind != y.kind or x.kind == "ok" and not same(x.v, y.v):
                c.fail(f"{fr} of text {x!r}, of the same bytes {y!r}", f"d = {doc!r}", f"print({fr}({top.src()}, d))",
                       f"print({fr}({top.src()}, d.encode()))")


def reader_option(c, rec, top, typ, fmt, fr, mod, kw, doc, want):
    """A hook given to from_<fmt> is called by the format's library as if it had been called directly."""
    name = {"json": "object_pairs_hook", "msgpack": "object_pairs_hook", "msgpack_tuple": "object_pairs_hook",
            "toml": "parse_float"}.get(fmt)
    if name is None or (fmt == "json" and formats.orjson()):
        return
    rkw = {k: x for k, x in kw.items() if k == "named"}

    def hook(log):
        if name == "parse_float":
            return lambda s: (log.append(s), float(s))[1]
        return lambda pairs: (log.append(len(pairs)), dict(pairs))[1]
    a, b = [], []
    formats.loads(fmt, want, **{name: hook(a)}, **({"strict_map_key": False} if "msgpack" in fmt else {}))
    call(getattr(mod, fr), typ, doc, **{name: hook(b)}, **rkw, **({"strict_map_key": False} if "msgpack" in fmt else {}))
    c.evaluate((fmt, want, name))
    rec.event("reader_option")
    if a != b:
        c.fail(f"{fr}: the {name} hook was called {b} by the library, but {a} when parsing directly",
               f"d = {doc!r}", f"print({fr}({top.src()}, d, {name}=print))")


def proto(doc):
    op, arg, pos = next(pickletools.genops(doc))
    return arg if op.name == "PROTO" else 0, same_pickle(doc)


def same_pickle(doc):
    try:
        return repr(pickle.loads(doc))
    except Exception as e:
        return repr(e)


def custom(c, rec, r, top, typ, v, fmt):
    to, fr, kw = formats.names(fmt)
    mod = FMT[fmt.split("_")[0]]
    fl, m = flags(r, fmt)
    so = formats.ser_opts(fmt, **m)
    if not so.named:
        so.skip_none = False
    w = top.ser(v, so)
    se = rec_se()
    opts = r.choice([{}, {"answer": 42}, {"indent": "x", "zz": None}])
    c.lines = [f"v = {lit(v)}"]
    ln = ("from serde.se import Serializer", "from serde.de import Deserializer", "class R(Serializer):",
          "    @classmethod", "    def serialize(cls, obj, **opts): print(obj, opts)",
          f"{to}(v, se=R" + "".join(f", {k}={x!r}" for k, x in {**kw, **fl, **opts}.items()) + ")")
    out = c.ok(call(getattr(mod, to), v, se=se, **kw, **fl, **opts), f"{to} with a serializer class", *ln)
    c.evaluate((fmt, lit(v), "se", repr(opts), repr(fl)))
    rec.event("custom_se")
    if out != ("document", 1) or len(se.seen) != 1:
        c.fail(f"{to} returned {out!r} instead of what the serializer class returned (calls: {len(se.seen)})", *ln)
    obj, got = se.seen[0]
    if fmt.startswith("msgpack"):
        got = {k: x for k, x in got.items() if k != "ext_type_code" or x is not None}
    if not same(obj, w):
        c.fail(f"{to} gave the serializer class {lit(obj)} instead of {lit(w)}", *ln)
    if got != opts:
        c.fail(f"{to} gave the serializer class the options {got} instead of {opts}", *ln)
    # reading: the deserializer class gets the document as it is, and its result is what is read
    w0 = top.ser(v, formats.ser_opts(fmt))
    exp = expect(top.de, w0, formats.de_opts(fmt))
    if exp.kind != "ok":
        rec.skip("reading not determined")
        return
    de = rec_de(w0)
    token = r.choice(["a document", b"bytes", 17, ["x"]])
    out = call(getattr(mod, fr), typ, token, de=de, **kw, **opts)
    ln = (f"w = {lit(w0)}", "from serde.de import Deserializer", "class R(Deserializer):", "    @classmethod",
          "    def deserialize(cls, data, **opts): print(data, opts); return w",
          f"print({fr}({top.src()}, {token!r}, de=R" + "".join(f", {k}={x!r}" for k, x in {**kw, **opts}.items()) + "))")
    c.must(exp, out, f"{fr} with a deserializer class", *ln)
    rec.event("custom_de")
    if len(de.seen) != 1 or de.seen[0][0] is not token or de.seen[0][1] != opts:
        c.fail(f"{fr} called the deserializer class with {de.seen!r} instead of {(token, opts)!r}", *ln)
