"""P27: objects are built by one call of their constructor, as user code would build them."""
import collections

import serde
from serde import SerdeError

from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect, short
from lib.spec import Cls, ClsT, Fld, Int, Opts, Str, Unknown, ModelError, dataclasses, lit, same, MISSING

PROP = "P27"
BUDGET = {"quick": 2000, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program, data, function) whose constructor calls were observed"
MIN = {}

HEADER = '''
LOG, RAISED, SPRUNG = [], [], set()
class Odd(Exception):
    pass
class OddBase(BaseException):
    pass
class MyKey(KeyError):
    pass
def _boom(kind):
    e = {"odd": Odd, "value": ValueError, "key": KeyError, "mykey": MyKey, "type": TypeError, "index": IndexError, "attr": AttributeError,
         "serde": _s.SerdeError, "runtime": RuntimeError, "zero": ZeroDivisionError,
         "unicode": UnicodeError}[kind]("tripped", kind)
    RAISED.append(e)
    raise e
'''
KINDS = ["odd", "value", "key", "mykey", "type", "index", "attr", "serde", "runtime", "zero", "unicode"]


def post(r, cl):
    """The text of a __post_init__ for a class, knowing its fields."""
    out = "    def __post_init__(self, *initvars):\n"
    out += f"        LOG.append(('post', type(self).__name__, {cl.name!r}))\n"
    names = {f.name for f in cl.all_fields()}
    if "trip" in names:
        out += f"        if self.trip == 13:\n            _boom({r.choice(KINDS)!r})\n"
        if r.random() < 0.4:
            out += "        if self.trip % 2:\n            object.__setattr__(self, 'trip', self.trip + 1)\n"
    if "made" in names:
        base = "self.trip" if "trip" in names else "0"
        out += f"        object.__setattr__(self, 'made', {base} * 3 + sum(initvars))\n"
    return out


def own_init(cl):
    fs = [f for f in cl.all_fields() if f.init and not f.classvar]
    pos = [f for f in fs if not (f.kw_only if f.kw_only is not None else cl.kw_only)]
    kw = [f for f in fs if f not in pos]

    def par(f):
        return f.name + (f"={f.default_src or lit(f.default)}" if f.default is not MISSING or f.default_src else "")

    args = ["self"] + [par(f) for f in pos] + (["*"] + [par(f) for f in kw] if kw else [])
    out = f"    def __init__({', '.join(args)}):\n        LOG.append(('init', type(self).__name__, {cl.name!r}))\n"
    out += "".join(f"        object.__setattr__(self, {f.name!r}, {f.name})\n" for f in fs)
    names = {f.name for f in cl.all_fields()}
    if "made" in names:
        out += "        object.__setattr__(self, 'made', 21)\n"
    if "trip" in names:
        out += "        if self.trip == 13:\n            _boom('value')\n"
    return out


def program(r):
    pg = PG(r, depth=r.choice([1, 2, 2, 3]), ncls=(1, 4), unions=False, transparent=0.12, kw_only=0.25, frozen=0.25, slots=0.1, inherit=0.35,
            rename=0.1, skip=0.0, both=0.1, plain=0.2, explicit_dc=0.3, defaults=0.4)
    prog = pg.program()
    prog.header = HEADER
    cs = pg.classes
    derived = {id(getattr(b, "cls", b)) for c in cs for b in c.bases}
    factories = {f.factory for c in cs for f in c.fields}
    for c in reversed(cs):
        if c.name in factories:
            factories |= {getattr(b, "cls", b).name for b in c.bases}
    for c in cs:
        if c.transparent:
            if r.random() < 0.6:
                c.body = post(r, c)
                if r.random() < 0.6:
                    c.body += f"        if repr(self.{c.fields[0].name}) in SPRUNG:\n            _boom({r.choice(KINDS)!r})\n"
                    c.springs = True
            continue
        names = {f.name for f in c.all_fields()}
        if "trip" not in names and not any(f.has_default() for b in c.bases for f in getattr(b, "cls", b).all_fields()):
            req = sum(not f.has_default() for f in c.fields)
            if c.name in factories:
                c.fields.insert(r.choice([0, req]), Fld("trip", Int(), default=0, kw_only=True))
            else:
                c.fields.insert(r.choice([0, req]), Fld("trip", Int()))
            names.add("trip")
        if r.random() < 0.35 and "made" not in names:
            f = Fld("made", Int(), init=False)
            if r.random() < 0.5:
                f.default = 5
            c.fields.insert(r.randint(0, len(c.fields)), f)
            c.body_needed = True
        if r.random() < 0.25 and id(c) not in derived and not c.slots:
            # parameters that are no fields
            ds = [k for k, f in enumerate(c.fields) if f.has_default()]
            at = r.randint(ds[0], len(c.fields)) if ds else len(c.fields)
            if c.kw_only or not any(not f.has_default() and f.init for f in c.fields[at:]):
                c.fields.insert(at, Fld("ivar", Int(), initvar=True, default=7))
        if not c.kw_only and r.random() < 0.2:
            own = [f for f in c.fields if not f.initvar and f.init and f.kw_only is None and not f.has_default()]
            if own:
                f = r.choice(own)
                f.kw_only = True
        if not c.frozen and r.random() < 0.15:
            plainly = [f for f in c.fields if f.init and not f.initvar and f.has_default()]
            for f in plainly[:1]:
                f.skip_de = True if c.decorator != "plain" else None
        mine = "".join(x.src() for x in c.fields)
        need = any(not f.init and not f.has_default() for f in c.all_fields())
        if (not c.slots and id(c) not in derived and not c.bases and not any(f.factory or f.initvar for f in c.fields) and r.random() < 0.12):
            c.body = own_init(c)
            c.kind = "init"
        elif need or r.random() < 0.8:
            c.body = post(r, c)
        if r.random() < 0.5 and not c.bases:
            c.body += f"    def __new__(cls, *a, **k):\n        LOG.append(('new', cls.__name__))\n        return object.__new__(cls)\n"
    return prog, cs


def objects(v, out):
    """Every dataclass object reachable from a value."""
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        out.append(v)
        for f in dataclasses.fields(v):
            objects(getattr(v, f.name), out)
    elif isinstance(v, dict):
        for k, x in v.items():
            objects(k, out)
            objects(x, out)
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            objects(x, out)
    return out


def stray(r, cl, data, node, rec):
    """Adds a key for a field which is not set from input."""
    if isinstance(data, dict) and not cl.transparent:
        for f in cl.all_fields():
            if not f.init and r.random() < 0.6:
                data[cl.wire_name(f)] = r.choice([99, "ill-typed", None, [1]])
                rec.event("init_false_key")
            if f.skip_de and r.random() < 0.6:
                data[cl.wire_name(f)] = r.choice([99, "ill-typed", None, [1]])
                rec.event("skipped_key")
        if r.random() < 0.3 and any(f.initvar for f in cl.fields):
            data["ivar"] = r.choice([5, "x"])
            rec.event("initvar_key")


def case(r, rec, i, cfg):
    prog, cs = program(r)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        log, raised = c.ns["LOG"], c.ns["RAISED"]
        for cl in cs:
            for k in range(3):
                one(c, rec, r, cl, log, raised)
            for f in ("frozen", "slots", "kw_only", "bases"):
                if getattr(cl, f):
                    rec.event(f)


FNS = ["from_dict", "from_dict", "from_tuple", "json", "yaml", "msgpack", "pickle", "toml"]


def one(c, rec, r, cl, log, raised):
    if cl.decorator == "plain" and r.random() < 0.5:
        pass
    g = Gen(r, c.ns)
    c.ns["SPRUNG"].clear()
    try:
        v = c.value(ClsT(cl), g)
    except Unknown:
        rec.skip("value")
        return
    objs = [o for o in objects(v, []) if "trip" in {f.name for f in dataclasses.fields(o)}]
    trip = r.random() < 0.35 and objs
    sprung = c.ns["SPRUNG"]
    springs = {d.name: d.fields[0].name for d in cls_nodes(c.prog) if getattr(d, "springs", False)}
    through = [o for o in objects(v, []) if type(o).__name__ in springs]
    if through and r.random() < 0.3:
        o = r.choice(through)
        sprung.add(repr(getattr(o, springs[type(o).__name__])))
        rec.event("transparent_tripped")
    elif trip:
        object.__setattr__(r.choice(objs), "trip", 13)
    fn = r.choice(FNS)
    named = fn != "from_tuple"
    try:
        data = ClsT(cl).ser(v, Opts(named=named, reuse=False, sets=True))
    except (ModelError, Unknown):
        rec.skip("form not determined")
        return
    if named:
        stray(r, cl, data, None, rec)
    o = Opts(named=named, reuse=False)
    f = serde.from_dict if fn == "from_dict" else serde.from_tuple
    arg, given = data, data
    lines = [f"data = {lit(data)}"]
    if fn in FMT:
        try:
            arg = formats.dumps(fn, data)
            given = formats.loads(fn, arg)
            if not same(given, formats.loads(fn, formats.dumps(fn, given))):
                raise ValueError
        except Exception:
            rec.skip("no document")
            return
        f = getattr(FMT[fn], f"from_{fn}")
        lines = [f"data = {arg!r}"]
        if not same(given, data):
            rec.skip("changed by the format")
            return
    name = f if isinstance(f, str) else f.__name__
    lines += [f"SPRUNG.update({sorted(sprung)!r})", "del LOG[:], RAISED[:]", f"try:\n    print({name}({cl.name}, data))\nexcept BaseException as e:\n    print(type(e), e, RAISED)", "print(LOG)"]
    del log[:], raised[:]
    tripped = None
    try:
        exp = expect(ClsT(cl).de, given, o)
    except Exception as e:
        if not raised or e is not raised[-1]:
            raise
        tripped, exp = e, None
    # the model gives up on SerdeError
    if raised:
        tripped, exp = raised[-1], None
    want = collections.Counter(log)
    del log[:], raised[:]
    kw = {}
    if fn in ("from_dict", "from_tuple") and r.random() < 0.3:
        kw["reuse_instances"] = False
    out = call(f, c.ns[cl.name], arg, **kw)
    got = collections.Counter(log)
    rec.event(name)
    if tripped is not None:
        c.evaluate((name, lit(data)))
        rec.event("tripped")
        rec.event("tripped_" + type(tripped).__name__)
        if not raised:
            c.fail(f"{name}({cl.name}): the constructor should have raised {tripped!r} but it {out!r}", *lines)
        if out.exc is not raised[-1]:
            c.fail(f"{name}({cl.name}): the constructor raised {raised[-1]!r} but it {out!r}", *lines)
        if len(raised) > 1:
            c.fail(f"{name}({cl.name}): the constructor was called {len(raised)} times and raised each time", *lines)
        return
    if not c.must(exp, out, f"{name}({cl.name})", *lines):
        return
    if exp.kind == "ok":
        if got != want:
            c.fail(f"{name}({cl.name}): constructor calls expected {dict(want)} but observed {dict(got)}", *lines)
        rec.event("calls", sum(got.values()))
        rec.event("objects", len(objects(out.v, [])))
        for x in objects(out.v, []):
            for fl in dataclasses.fields(x):
                if not hasattr(x, fl.name):
                    c.fail(f"{name}({cl.name}): an object without {fl.name}", *lines)
