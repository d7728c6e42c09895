"""Specifications of classes under test.

A *case* is a small program: a Python module with enum, new-type and dataclass declarations built
from the node classes below.  Every node knows how to print itself as source (`src`), to make
values (`gen`) and -- in `model.py` terms -- what the documentation says its wire form is (`ser`)
and what the wire form means (`de`).  The model never looks at pyserde's code or generated code:
it is an interpreter over these nodes.
"""
from __future__ import annotations

import collections
import dataclasses
import datetime as _dt
import decimal
import enum
import ipaddress
import math
import pathlib
import sys
import types
import typing
import uuid

import casefy

HEADER = '''\
import collections as _c
import collections.abc as _abc
import dataclasses as _d
import datetime as _dt
import decimal as _dec
import enum as _e
import ipaddress as _ip
import pathlib as _pl
import typing as _t
import uuid as _u
import serde as _s
'''


class ModelError(Exception):
    """The documentation says this input is rejected."""


class Unknown(Exception):
    """The documentation does not settle the outcome (only containment is judged)."""


MISSING = object()


@dataclasses.dataclass
class Opts:
    named: bool = True
    reuse: bool | None = None
    sets: bool | None = None
    skip_none: bool = False
    num: str | None = None      # None | "json" | "yaml"
    check: str = "strict"       # mode of the enclosing class
    cls_sets: bool | None = None    # `sets` for the classes within a value written by what it is
    tagging: tuple | None = None    # tagging of the enclosing class or of a direct call

    def w(self, **kw):
        return dataclasses.replace(self, **kw)


def instance_yes(v):
    return v


# ---------------------------------------------------------------------------------------------
# type nodes
class Ty:
    kind = "?"          # coarse wire kind, used to keep unions unambiguous
    hashable = False
    keyable = False     # usable as a dict key in text formats
    depth = 0

    def src(self):
        raise NotImplementedError

    def kids(self):
        return []

    def gen(self, g):
        raise NotImplementedError

    def ser(self, v, o):
        return v

    def de(self, w, o):
        return w

    def isa(self, v):
        """'yes' | 'no' | 'maybe' membership of a python value (maybe: a container some of whose
        elements are wrong)."""
        raise NotImplementedError

    def lossless(self):
        """False if the round trip loses the python type by design."""
        return all(k.lossless() for k in self.kids())

    def walk(self):
        yield self
        for k in self.kids():
            yield from k.walk()

    def __repr__(self):
        return self.src()


INTS = [0, 1, -1, 2, 7, 10, 42, 255, -128, 2**31 - 1, -2**31, 2**53, 2**53 + 1, 2**63 - 1, -2**63]
STRS = ["", "a", "b", "foo", "Foo", "null", "None", "true", "1", "1.5", "0", "a b", " lead", "trail ",
        "quote\"d", "it's", "back\\slash", "new\nline", "tab\t", "é", "日本", "🐍", "a\u0000b", "\u007f",
        "{x}", "%s", "{{ y }}", "key: value", "- item", "#c", "a/b", "\\n", "\r\n", "~", "yes", "2020-01-01",
        "0x10", "1e3", "=", "<<", "\u2028", "\ufeff", "[1]", "x" * 40]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e16, 1e-7, 1e300, 2.5, 3.0, 123456.789, 5e-324, 1.7976931348623157e308]
NASTY_FLOATS = FLOATS + [math.inf, -math.inf, math.nan]


def rint(r):
    return r.choice(INTS) if r.random() < 0.6 else r.randint(-10**6, 10**6)


def rstr(r):
    if r.random() < 0.65:
        return r.choice(STRS)
    return "".join(r.choice("abcXYZ019 _-\"'\\{}\néß☃") for _ in range(r.randint(1, 8)))


def rfloat(r, nasty=False):
    if r.random() < 0.6:
        return r.choice(NASTY_FLOATS if nasty else FLOATS)
    return r.uniform(-1e6, 1e6)


class Int(Ty):
    kind = "int"
    hashable = keyable = True

    def src(self):
        return "int"

    def gen(self, g):
        if g.big and g.r.random() < 0.3:
            return g.r.choice([2**63, 2**64 - 1, 2**64, -2**63 - 1, 10**30, -10**25])
        return rint(g.r)

    def ser(self, v, o):
        return coerce_prim(int, v, o)

    def de(self, w, o):
        return coerce_prim(int, w, o)

    def isa(self, v):
        return "yes" if isinstance(v, int) else "no"


class Float(Ty):
    kind = "float"
    hashable = True
    keyable = True

    def src(self):
        return "float"

    def gen(self, g):
        return rfloat(g.r, g.nasty_floats)

    def ser(self, v, o):
        return coerce_prim(float, v, o)

    def de(self, w, o):
        if o.num:
            return num_conv(w, o.num)
        return coerce_prim(float, w, o)

    def isa(self, v):
        return "yes" if isinstance(v, float) else "no"


class Str(Ty):
    kind = "str"
    hashable = keyable = True

    def src(self):
        return "str"

    def gen(self, g):
        return rstr(g.r)

    def ser(self, v, o):
        return coerce_prim(str, v, o)

    def de(self, w, o):
        return coerce_prim(str, w, o)

    def isa(self, v):
        return "yes" if isinstance(v, str) else "no"


class Bool(Ty):
    kind = "bool"
    hashable = True

    def src(self):
        return "bool"

    def gen(self, g):
        return g.r.random() < 0.5

    def ser(self, v, o):
        return coerce_prim(bool, v, o)

    def de(self, w, o):
        return coerce_prim(bool, w, o)

    def isa(self, v):
        return "yes" if isinstance(v, bool) else "no"


def num_conv(w, mode):
    if isinstance(w, bool):
        raise ModelError(f"bool is not a number: {w!r}")
    if isinstance(w, (int, float)):
        try:
            return float(w)
        except OverflowError:
            raise ModelError("overflow")
    if mode == "yaml" and isinstance(w, str):
        try:
            return float(w)
        except ValueError:
            raise ModelError("not a number")
    raise ModelError(f"not a number: {w!r}")


def coerce_prim(typ, v, o):
    if o.check == "direct":     # a primitive type passed directly converts what is not of the type in its own way
        if type(v) is not typ:
            raise Unknown
        return v
    if o.check != "coerce":
        return v
    if v is None:
        raise ModelError("None")
    try:
        return typ(v)
    except Exception as e:
        raise ModelError(str(e))


class PrimSub(Ty):
    """class Foo(int): pass"""
    hashable = True

    def __init__(self, name, base):
        self.name, self.base = name, base
        self.kind = base().kind
        self.keyable = False

    def decl(self):
        return f"class {self.name}({self.base().src()}):\n    pass\n"

    def src(self):
        return self.name

    def gen(self, g):
        return g.m[self.name](self.base().gen(g))

    def ser(self, v, o):
        return v if o.check != "coerce" else self._ctor(v, o)

    def _ctor(self, v, o):
        if v is None:
            raise ModelError("None")
        if type(v) not in (int, float, str, bool) and not isinstance(v, (int, float, str)):
            raise Unknown
        try:
            return self.cls(o)(v)
        except Exception as e:
            raise ModelError(str(e))

    def cls(self, o=None):
        return self.mod[self.name]

    def de(self, w, o):
        if isinstance(w, self.cls()):
            return w
        if self.base is Float and o.num:
            return self.cls()(num_conv(w, o.num))
        if isinstance(w, bool) or type(w) is not self.base_py():
            raise Unknown
        return self.cls()(w)

    def base_py(self):
        return {"int": int, "float": float, "str": str}[self.base().src()]

    def isa(self, v):
        return "yes" if isinstance(v, self.cls()) else "no"


class NewT(Ty):
    """N = NewType('N', int)"""

    def __init__(self, name, base):
        self.name, self.base = name, base
        self.inner = base()
        self.kind = self.inner.kind
        self.hashable = True
        self.keyable = False

    def decl(self):
        return f"{self.name} = _t.NewType({self.name!r}, {self.inner.src()})\n"

    def src(self):
        return self.name

    def gen(self, g):
        return self.inner.gen(g)

    def ser(self, v, o):
        return self.inner.ser(v, o)

    def de(self, w, o):
        return self.inner.de(w, o)

    def isa(self, v):
        return self.inner.isa(v)


class StrSer(Ty):
    kind = "str"
    hashable = True
    TYPES = {
        "_dec.Decimal": ["0", "1.50", "-3.14", "1E+3", "0.1", "123456789.000000001"],
        "_pl.Path": [".", "/", "a/b", "/tmp/x y", "é.txt", "..", "-", "C:\\x"],
        "_pl.PurePath": ["a", "/x/y"],
        "_pl.PosixPath": ["p/q", "/z"],
        "_pl.PurePosixPath": ["pp", "/pp/q"],
        "_pl.PureWindowsPath": ["C:\\a\\b", "x\\y"],
        "_u.UUID": ["12345678-1234-5678-1234-567812345678", "00000000-0000-0000-0000-000000000000"],
        "_ip.IPv4Address": ["127.0.0.1", "255.255.255.255", "0.0.0.0"],
        "_ip.IPv6Address": ["::1", "fe80::1", "2001:db8::ff"],
        "_ip.IPv4Network": ["10.0.0.0/8", "192.168.1.0/24"],
        "_ip.IPv6Network": ["2001:db8::/32"],
        "_ip.IPv4Interface": ["10.1.2.3/8"],
        "_ip.IPv6Interface": ["2001:db8::1/32"],
    }
    PY = {"_dec": decimal, "_pl": pathlib, "_u": uuid, "_ip": ipaddress}

    def __init__(self, name):
        self.name = name
        m, c = name.split(".")
        self.py = getattr(self.PY[m], c)

    def src(self):
        return self.name

    def gen(self, g):
        return self.py(g.r.choice(self.TYPES[self.name]))

    def ser(self, v, o):
        return v if o.reuse else str(v)

    def de(self, w, o):
        if isinstance(w, self.py):
            if o.reuse is None or o.reuse:
                return w
            raise Unknown
        if isinstance(w, str):
            try:
                return self.py(w)
            except Exception as e:
                raise ModelError(str(e))
        if w is None or isinstance(w, (dict,)):
            raise ModelError("not str")
        raise Unknown

    def isa(self, v):
        return "yes" if isinstance(v, self.py) else "no"


class DateT(Ty):
    kind = "str"
    hashable = True
    PY = {"_dt.date": _dt.date, "_dt.time": _dt.time, "_dt.datetime": _dt.datetime}

    def __init__(self, name):
        self.name = name
        self.py = self.PY[name]

    def src(self):
        return self.name

    def gen(self, g):
        r = g.r
        us = r.choice([0, 1, 500000, 999999])
        tz = r.choice([None, None, _dt.timezone.utc, _dt.timezone(_dt.timedelta(hours=5, minutes=30))])
        if self.py is _dt.date:
            return _dt.date(r.choice([1, 1970, 2021, 9999]), r.randint(1, 12), r.randint(1, 28))
        if self.py is _dt.time:
            return _dt.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), us)
        return _dt.datetime(r.choice([1000, 1970, 2021, 9999]), r.randint(1, 12), r.randint(1, 28),
                            r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), us, tzinfo=tz)

    def ser(self, v, o):
        return v if o.reuse else v.isoformat()

    def de(self, w, o):
        if type(w) is self.py:
            if o.reuse is None or o.reuse:
                return w
            raise Unknown
        if isinstance(w, str):
            try:
                return self.py.fromisoformat(w)
            except Exception as e:
                raise ModelError(str(e))
        if isinstance(w, (_dt.date, _dt.time)):
            raise Unknown
        raise ModelError("not str")

    def isa(self, v):
        return "yes" if type(v) is self.py else ("maybe" if isinstance(v, self.py) else "no")


class EnumT(Ty):
    """An enum declaration.  members: [(name, value)]"""
    hashable = True

    def __init__(self, name, base, members, nested=None):
        self.name, self.base, self.members = name, base, members
        self.nested = nested        # name of an enum whose members are the values
        self.kind = {"_e.Enum": None, "_e.IntEnum": "int", "_e.IntFlag": "int", "_e.Flag": "int", "int, _e.Enum": "int", "str, _e.Enum": "str",
                     "_e.StrEnum": "str"}[base]
        if self.kind is None:
            ks = {_lit_kind(v) for _, v in members}
            self.kind = ks.pop() if len(ks) == 1 else "mixed"
        self.keyable = base in ("_e.IntEnum", "int, _e.Enum", "str, _e.Enum", "_e.StrEnum") or self.kind == "str"

    def decl(self):
        out = f"class {self.name}({self.base}):\n"
        for n, v in self.members:
            vs = f"{self.nested.name}[{v!r}]" if self.nested else lit(v)
            out += f"    {n} = {vs}\n"
        return out

    def src(self):
        return self.name

    @property
    def cls(self):
        return self.mod[self.name]

    def gen(self, g):
        return g.r.choice(list(self.cls))

    def ser(self, v, o):
        v = v.value
        while isinstance(v, enum.Enum):
            v = v.value
        return v

    def wire(self, m):
        return self.ser(m, None)

    def de(self, w, o):
        if isinstance(w, enum.Enum):
            raise Unknown
        for m in self.cls:
            mw = self.wire(m)
            if type(mw) is type(w) and mw == w:
                return m
            if isinstance(mw, tuple) and isinstance(w, (list, tuple)) and list(mw) == list(w):
                return m
        if any(self.wire(m) == w for m in self.cls):
            raise Unknown   # 1, 1.0 and True are the same to an enum
        if self.base in ("_e.IntFlag", "_e.Flag") and isinstance(w, (int, float)):
            if type(w) is int and 0 <= w < 8:
                return self.cls(w)
            raise Unknown
        if isinstance(w, str):
            try:
                n = float(w)
            except ValueError:
                n = None
            # the text of a number, for formats whose keys are texts
            if n is not None and (self.base in ("_e.IntFlag", "_e.Flag") or any(isinstance(self.wire(m), (int, float)) and self.wire(m) == n for m in self.cls)):
                raise Unknown
        raise ModelError("not a member value")

    def isa(self, v):
        return "yes" if isinstance(v, self.cls) else "no"


def _lit_kind(v):
    if isinstance(v, enum.Enum):
        return "str"
    return {int: "int", str: "str", bool: "bool", float: "float", tuple: "list", list: "list"}.get(type(v), "mixed")


class Lit(Ty):
    hashable = True

    def __init__(self, values):
        self.values = values
        ks = {_lit_kind(v) for v in values}
        self.kind = ks.pop() if len(ks) == 1 else "mixed"

    def src(self):
        return "_t.Literal[" + ", ".join(lit(v) for v in self.values) + "]"

    def gen(self, g):
        return g.r.choice(self.values)

    def de(self, w, o):
        for v in self.values:
            if type(v) is type(w) and v == w:
                return w
        if any(v == w for v in self.values):
            raise Unknown
        raise ModelError("not a listed literal")

    def isa(self, v):
        for x in self.values:
            if type(x) is type(v) and x == v:
                return "yes"
        return "maybe" if any(x == v for x in self.values) else "no"


class AnyT(Ty):
    kind = "any"

    def src(self):
        return "_t.Any"

    def gen(self, g):
        return gen_plain(g, 2)

    def lossless(self):
        return True

    def ser(self, v, o):
        return v

    def isa(self, v):
        return "yes"


def gen_plain(g, depth):
    r = g.r
    k = r.randint(0, 7 if depth else 4)
    if k == 0:
        return rint(r)
    if k == 1:
        return rstr(r)
    if k == 2:
        return r.choice([True, False])
    if k == 3:
        return rfloat(r)
    if k == 4:
        return "x" if not g.allow_none_in_any else None
    if k in (5, 6):
        return [gen_plain(g, depth - 1) for _ in range(r.randint(0, 3))]
    return {rstr(r): gen_plain(g, depth - 1) for _ in range(r.randint(0, 3))}


class NoneT(Ty):
    kind = "none"

    def src(self):
        return "None"

    def gen(self, g):
        return None

    def de(self, w, o):
        if w is not None:
            raise Unknown
        return None

    def isa(self, v):
        return "yes" if v is None else "no"


def seq_isa(els):
    els = list(els)
    if not els or all(e == "yes" for e in els):
        return "yes"
    if all(e == "no" for e in els):
        return "no"
    return "maybe"


def need_iter(w):
    if isinstance(w, (list, tuple)):
        return w
    if isinstance(w, (str, dict, set, frozenset, collections.deque)):
        raise Unknown
    raise ModelError("not a sequence")


class ListT(Ty):
    kind = "list"
    FORMS = ["list[{}]", "_t.List[{}]", "_abc.Sequence[{}]", "_abc.MutableSequence[{}]"]

    def __init__(self, el, form="list[{}]"):
        self.el, self.form = el, form

    def kids(self):
        return [self.el]

    def src(self):
        return self.form.format(self.el.src())

    def gen(self, g):
        return [self.el.gen(g) for _ in range(g.size())]

    def ser(self, v, o):
        return [self.el.ser(x, o) for x in v]

    def de(self, w, o):
        return [self.el.de(x, o) for x in need_iter(w)]

    def isa(self, v):
        if not isinstance(v, list):
            return "maybe" if "_abc" in self.form else "no"
        return seq_isa(self.el.isa(x) for x in v)


class SetT(Ty):
    kind = "list"
    FORMS = ["set[{}]", "_t.Set[{}]", "_abc.Set[{}]", "_abc.MutableSet[{}]"]

    def __init__(self, el, form="set[{}]"):
        self.el, self.form = el, form

    def kids(self):
        return [self.el]

    def src(self):
        return self.form.format(self.el.src())

    def gen(self, g):
        return {self.el.gen(g) for _ in range(g.size())}

    def ser(self, v, o):
        out = [self.el.ser(x, o) for x in v]
        return out if o.sets else set(out)

    def de(self, w, o):
        if isinstance(w, (set, frozenset)):
            w = list(w)
        vals = [self.el.de(x, o) for x in need_iter(w)]
        try:
            return set(vals)
        except TypeError as e:
            raise ModelError(str(e))

    def isa(self, v):
        if not isinstance(v, (set,)):
            return "maybe" if isinstance(v, frozenset) or "_abc" in self.form else "no"
        return seq_isa(self.el.isa(x) for x in v)


class FrozenSetT(SetT):
    hashable = True
    FORMS = ["frozenset[{}]", "_t.FrozenSet[{}]"]

    def __init__(self, el, form="frozenset[{}]"):
        self.el, self.form = el, form

    def gen(self, g):
        return frozenset(super().gen(g))

    def de(self, w, o):
        return frozenset(super().de(w, o))

    def isa(self, v):
        return seq_isa(self.el.isa(x) for x in v) if isinstance(v, frozenset) else "no"


class DequeT(Ty):
    kind = "list"

    def __init__(self, el):
        self.el = el

    def kids(self):
        return [self.el]

    def src(self):
        return f"_c.deque[{self.el.src()}]"

    def gen(self, g):
        return collections.deque(self.el.gen(g) for _ in range(g.size()))

    def ser(self, v, o):
        return [self.el.ser(x, o) for x in v]

    def de(self, w, o):
        return collections.deque(self.el.de(x, o) for x in need_iter(w))

    def isa(self, v):
        return seq_isa(self.el.isa(x) for x in v) if isinstance(v, collections.deque) else "no"


class TupleT(Ty):
    kind = "list"

    def __init__(self, els, form="tuple[{}]"):
        self.els, self.form = els, form
        self.hashable = all(e.hashable for e in els)

    def kids(self):
        return list(self.els)

    def src(self):
        return self.form.format(", ".join(e.src() for e in self.els))

    def gen(self, g):
        return tuple(e.gen(g) for e in self.els)

    def ser(self, v, o):
        return tuple(e.ser(x, o) for e, x in zip(self.els, v, strict=True))

    def de(self, w, o):
        w = need_iter(w)
        if len(w) < len(self.els):
            raise ModelError("too short")
        if len(w) > len(self.els):
            raise Unknown
        return tuple(e.de(x, o) for e, x in zip(self.els, w))

    def isa(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.els):
            return "no"
        rs = [e.isa(x) for e, x in zip(self.els, v)]
        if "no" in rs:
            return "no"
        return "maybe" if "maybe" in rs else "yes"


class VarTupleT(Ty):
    kind = "list"

    def __init__(self, el, form="tuple[{}, ...]"):
        self.el, self.form = el, form
        self.hashable = el.hashable

    def kids(self):
        return [self.el]

    def src(self):
        return self.form.format(self.el.src())

    def gen(self, g):
        return tuple(self.el.gen(g) for _ in range(g.size()))

    def ser(self, v, o):
        return tuple(self.el.ser(x, o) for x in v)

    def de(self, w, o):
        return tuple(self.el.de(x, o) for x in need_iter(w))

    def isa(self, v):
        return seq_isa(self.el.isa(x) for x in v) if isinstance(v, tuple) else "no"


class DictT(Ty):
    kind = "dict"
    FORMS = ["dict[{}, {}]", "_t.Dict[{}, {}]", "_abc.Mapping[{}, {}]", "_abc.MutableMapping[{}, {}]"]

    def __init__(self, k, v, form="dict[{}, {}]"):
        self.k, self.v, self.form = k, v, form

    def kids(self):
        return [self.k, self.v]

    def src(self):
        return self.form.format(self.k.src(), self.v.src())

    def gen(self, g):
        return {self.k.gen(g): self.v.gen(g) for _ in range(g.size())}

    def ser(self, v, o):
        return {self.k.ser(k, o): self.v.ser(x, o) for k, x in v.items()}

    def de(self, w, o):
        if not isinstance(w, dict):
            raise ModelError("not a dict")
        out = {}
        for k, x in w.items():
            kk = self.de_key(k, o)
            out[kk] = self.v.de(x, o)
        return out

    def de_key(self, k, o):
        t = self.k
        if getattr(t, "de_tag", 0) is None:
            t = t.inner
        while isinstance(t, NewT):
            t = t.inner
        if isinstance(t, (Int, Float)):
            py = int if isinstance(t, Int) else float
            if type(k) is py:
                return k
            if isinstance(k, str):
                try:
                    return py(k)
                except ValueError as e:
                    raise ModelError(str(e))
            raise Unknown
        if isinstance(t, EnumT) and t.kind == "int" and isinstance(k, str):
            for m in t.cls:
                if str(t.wire(m)) == k:
                    return m
            raise Unknown
        return t.de(k, o)

    def isa(self, v):
        if not isinstance(v, dict):
            return "no"
        rs = [seq_isa(self.k.isa(k) for k in v), seq_isa(self.v.isa(x) for x in v.values())]
        return "no" if "no" in rs else ("maybe" if "maybe" in rs else "yes")


class DefaultDictT(DictT):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.form = "_c.defaultdict[{}, {}]"

    def factory(self):
        v = self.v
        if isinstance(v, ListT):
            return list
        if isinstance(v, DefaultDictT):
            return collections.defaultdict
        if isinstance(v, DictT):
            return dict
        if isinstance(v, FrozenSetT):
            return frozenset
        if isinstance(v, SetT):
            return set
        if isinstance(v, DequeT):
            return collections.deque
        if isinstance(v, (TupleT, VarTupleT)):
            return tuple
        return {"int": int, "float": float, "str": str, "bool": bool}[v.src()]

    def gen(self, g):
        return collections.defaultdict(self.factory(), super().gen(g))

    def de(self, w, o):
        return collections.defaultdict(self.factory(), super().de(w, o))

    def isa(self, v):
        return super().isa(v) if isinstance(v, collections.defaultdict) else "no"


class CounterT(Ty):
    kind = "dict"

    def __init__(self, k):
        self.k = k

    def kids(self):
        return [self.k]

    def src(self):
        return f"_c.Counter[{self.k.src()}]"

    def gen(self, g):
        return collections.Counter({self.k.gen(g): g.r.randint(0, 9) for _ in range(g.size())})

    def ser(self, v, o):
        return {self.k.ser(k, o): n for k, n in v.items()}

    def de(self, w, o):
        if not isinstance(w, dict):
            raise ModelError("not a dict")
        return collections.Counter({DictT(self.k, Int()).de_key(k, o): n for k, n in w.items()})

    def isa(self, v):
        if not isinstance(v, collections.Counter):
            return "no"
        if not all(isinstance(x, int) for x in v.values()):
            return "no" if not any(self.k.isa(k) == "yes" for k in v) else "maybe"
        return seq_isa(self.k.isa(k) for k in v)


class Bare(Ty):
    """Container without type arguments; holds plain data and is passed through."""

    def __init__(self, name):
        self.name = name
        self.kind = "dict" if name in ("dict", "_c.Counter", "_abc.Mapping") else "list"
        self.py = {"list": list, "dict": dict, "set": set, "tuple": tuple, "frozenset": frozenset,
                   "_c.deque": collections.deque, "_c.Counter": collections.Counter}[name]

    def src(self):
        return self.name

    def gen(self, g):
        r = g.r
        if self.py is dict:
            return {rstr(r): gen_plain(g, 1) for _ in range(g.size())}
        if self.py is collections.Counter:
            return collections.Counter({rstr(r): r.randint(0, 5) for _ in range(g.size())})
        if self.py in (set, frozenset):
            return self.py(rstr(r) for _ in range(g.size()))
        return self.py(gen_plain(g, 1) for _ in range(g.size()))

    def ser(self, v, o):
        if self.py is collections.deque:
            return list(v)
        if self.py is collections.Counter:
            return dict(v)
        if self.py in (set, frozenset):
            return list(v) if o.sets else v
        return v

    def de(self, w, o):
        if self.py in (dict, collections.Counter):
            if not isinstance(w, dict):
                if isinstance(w, (int, float)) and o.check == "strict":
                    if self.py is dict:
                        return w    # refused by the constructor
                    raise ModelError("not a mapping")
                raise Unknown
            return w if self.py is dict else self.py(w)
        if isinstance(w, (set, frozenset)) and self.py in (set, frozenset):
            return set(w)
        w = need_iter(w)
        try:
            return self.py(w) if self.py is not frozenset else set(w)
        except TypeError as e:
            raise ModelError(str(e))

    def isa(self, v):
        return "yes" if isinstance(v, self.py) else "no"


class OptT(Ty):
    FORMS = ["_t.Optional[{}]", "{} | None", "_t.Union[{}, None]"]

    def __init__(self, el, form="_t.Optional[{}]"):
        self.el, self.form = el, form
        self.hashable = el.hashable
        self.kind = "opt"

    def kids(self):
        return [self.el]

    def src(self):
        return self.form.format(self.el.src())

    def gen(self, g):
        return None if g.r.random() < 0.35 or g.enough() else self.el.gen(g)

    def ser(self, v, o):
        return None if v is None else self.el.ser(v, o)

    def de(self, w, o):
        if w is None and isinstance(self.el, UnionT) and any(isinstance(e, ClsT) and not e.cls.de_fields() for e in self.el.els):
            raise Unknown   # a class without fields accepts anything
        return None if w is None else self.el.de(w, o)

    def isa(self, v):
        return "yes" if v is None else self.el.isa(v)


class UnionT(Ty):
    kind = "union"

    def __init__(self, els, form="union"):
        self.els, self.form = els, form
        self.hashable = all(e.hashable for e in els)

    def kids(self):
        return list(self.els)

    def src(self):
        if self.form == "pipe":
            return "(" + " | ".join(e.src() for e in self.els) + ")"
        return "_t.Union[" + ", ".join(e.src() for e in self.els) + "]"

    def gen(self, g):
        els = [e for e in self.els if not isinstance(e, ClsT)] if g.enough() else None
        return g.r.choice(els or self.els).gen(g)

    def member_of(self, v):
        cands = [e for e in self.els if e.isa(v) == "yes"]
        if not cands:
            if any(e.isa(v) == "maybe" for e in self.els):
                raise Unknown
            raise ModelError("no member")
        for e in self.els[:self.els.index(cands[0])]:
            if e.isa(v) == "maybe":
                raise Unknown
        # an object of a derived class is an instance of the base class, too
        exact = [e for e in cands if (isinstance(e, ClsT) and type(v) is e.cls.py)
                 or (isinstance(e, EnumT) and isinstance(v, e.cls)) or (isinstance(e, PrimSub) and type(v) is e.cls())
                 or (e.kind == "bool" and isinstance(v, bool))]
        return (exact or cands)[0]

    def tag(self, o):
        return o.tagging or ("external",)

    def ser(self, v, o):
        e = self.member_of(v)
        w = e.ser(v, o.w(named=True, check="strict" if o.check == "strict" else "disabled"))
        if isinstance(e, (ClsT,)):
            t = self.tag(o)
            name = e.cls.name
            if t[0] == "external":
                return {name: w}
            if t[0] == "internal":
                w = dict(w)
                w[t[1]] = name
                return w
            if t[0] == "adjacent":
                return {t[2]: w, t[1]: name}
        return w

    def de(self, w, o):
        o = o.w(named=True, check="disabled")
        for e in self.els:
            try:
                d = w
                if isinstance(e, ClsT):
                    t = self.tag(o)
                    name = e.cls.name
                    if t[0] != "untagged":
                        if not isinstance(w, dict):
                            if isinstance(w, (list, tuple, str, set)):
                                raise ModelError("not tagged")
                            raise ModelError("not tagged")
                        if t[0] == "external":
                            if name not in w:
                                raise ModelError("tag")
                            if len(w) > 1:
                                raise Unknown
                            d = w[name]
                        elif t[0] == "internal":
                            if t[1] not in w or w[t[1]] != name:
                                raise ModelError("tag")
                            d = w
                            if not e.cls.transparent and t[1] not in e.cls.accepted():
                                d = {k: x for k, x in w.items() if k != t[1]}
                        else:
                            if t[1] not in w or t[2] not in w or w[t[1]] != name:
                                raise ModelError("tag")
                            d = w[t[2]]
                if isinstance(e, (Int, Float, Str, Bool)):
                    if e.isa(w) != "yes":
                        raise ModelError("type")
                if isinstance(e, NoneT) and w is not None:
                    raise ModelError("not None")
                res = e.de(d, o)
                k = e.isa(res)
                if k == "no":
                    raise ModelError("not a member")
                if k == "maybe":
                    raise Unknown
                return res
            except ModelError:
                continue
        raise ModelError("no member accepts")

    def isa(self, v):
        rs = [e.isa(v) for e in self.els]
        return "yes" if "yes" in rs else ("maybe" if "maybe" in rs else "no")


class Alias(Ty):
    """type X = ... (PEP 695)"""

    def __init__(self, name, el):
        self.name, self.el = name, el
        self.kind, self.hashable = el.kind, el.hashable

    def decl(self):
        return f"type {self.name} = {self.el.src()}\n"

    def kids(self):
        return [self.el]

    def src(self):
        return self.name

    def gen(self, g):
        return self.el.gen(g)

    def ser(self, v, o):
        return self.el.ser(v, o)

    def de(self, w, o):
        return self.el.de(w, o)

    def isa(self, v):
        return self.el.isa(v)


class TVar(Ty):
    kind = "any"

    def __init__(self, name):
        self.name = name

    def src(self):
        return self.name

    def isa(self, v):
        return "yes"


class BoundT(Ty):
    """A type variable's argument: converted like the type when read, but written by what the value is."""

    def __init__(self, inner):
        self.inner = inner
        self.kind, self.hashable = inner.kind, inner.hashable

    def src(self):
        return self.inner.src()

    def kids(self):
        return [self.inner]

    def gen(self, g):
        return self.inner.gen(g)

    def ser(self, v, o):
        return self.inner.ser(v, o.w(reuse=False, sets=True, cls_sets=o.sets if o.cls_sets is None else o.cls_sets,
                                   check="strict", tagging=None))

    def de(self, w, o):
        return self.inner.de(w, o.w(check="direct", tagging=None))

    def isa(self, v):
        return self.inner.isa(v)


MEMO = None     # of `ClsT.isa`, during one judgement: objects of related classes in unions are asked about again and again


class ClsT(Ty):
    """Reference to a dataclass (optionally with type arguments)."""
    kind = "cls"

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, list(args)
        self.hashable = cls.frozen
        self.quoted = False

    def src(self):
        if self.args:
            return f"{self.cls.name}[{', '.join(a.src() for a in self.args)}]"
        return repr(self.cls.name) if self.quoted else self.cls.name

    def kids(self):
        return list(self.args)

    def gen(self, g):
        return self.cls.gen(g, self.args)

    def ser(self, v, o):
        if o.cls_sets is not None:
            o = o.w(sets=o.cls_sets, cls_sets=None)
        return self.cls.for_value(v).ser(v, o, self.args)

    def de(self, w, o):
        return self.cls.de(w, o, self.args)

    def lossless(self):
        return True

    def isa(self, v):
        if not isinstance(v, self.cls.py):
            return "no"
        if self.cls.check == "strict" and self.cls.decorator != "plain":
            return "yes"
        key = (id(v), id(self.cls), *map(id, self.args))
        if MEMO is not None and key in MEMO:
            return MEMO[key][0]
        res = "yes"
        for f in self.cls.all_fields():
            if not f.classvar and hasattr(v, f.name) and self.cls.fty(f, self.args).isa(getattr(v, f.name)) != "yes":
                res = "maybe"
                break
        if MEMO is not None:
            MEMO[key] = res, v, self.args       # keeps them alive, and so their identities unique
        return res


# ---------------------------------------------------------------------------------------------
# fields and classes
@dataclasses.dataclass
class Fld:
    name: str
    ty: Ty
    default: object = MISSING         # python value (made after the module's declarations exist)
    factory: str | None = None        # source of a zero-argument callable
    factory_value: object = None      # zero-arg callable giving the expected value (model side)
    default_src: str | None = None
    rename: str | None = None
    alias: list | None = None
    skip: bool | None = None
    skip_ser: bool | None = None
    skip_de: bool | None = None
    skip_if: tuple | None = None      # (source, python predicate)
    skip_if_false: bool | None = None
    skip_if_none: bool | None = None
    skip_if_default: bool | None = None
    flatten: bool = False
    kw_only: bool | None = None
    init: bool = True
    init_value: object = MISSING
    serializer: tuple | None = None   # (source, python fn)
    deserializer: tuple | None = None
    classvar: bool = False
    initvar: bool = False
    owner: object = None
    via_metadata: bool = False
    extra: dict = dataclasses.field(default_factory=dict)

    def has_default(self):
        return self.default is not MISSING or self.default_src is not None or self.factory is not None

    def default_value(self, mod):
        if self.factory is not None:
            return eval(self.factory, dict(mod))()
        if self.default_src is not None:
            return eval(self.default_src, dict(mod))
        return self.default

    def src(self):
        t = self.ty.src()
        if self.classvar:
            return f"    {self.name}: _t.ClassVar[{t}] = {self.default_src or lit(self.default)}\n"
        if self.initvar:
            t = f"_d.InitVar[{t}]"
        serde_kw, kw = [], []
        for attr, key in [("rename", "rename"), ("alias", "alias"), ("skip", "skip"), ("skip_ser", "skip_serializing"),
                          ("skip_de", "skip_deserializing"), ("skip_if_false", "skip_if_false"),
                          ("skip_if_none", "skip_if_none"), ("skip_if_default", "skip_if_default")]:
            v = getattr(self, attr)
            if v is not None:
                serde_kw.append((key, repr(v)))
        if self.skip_if:
            serde_kw.append(("skip_if", self.skip_if[0]))
        if self.serializer:
            serde_kw.append(("serializer", self.serializer[0]))
        if self.deserializer:
            serde_kw.append(("deserializer", self.deserializer[0]))
        if self.flatten:
            serde_kw.append(("flatten", "True"))
        if self.default_src is not None:
            kw.append(("default", self.default_src))
        elif self.default is not MISSING:
            kw.append(("default", lit(self.default)))
        if self.factory is not None:
            kw.append(("default_factory", self.factory))
        if not self.init:
            kw.append(("init", "False"))
        if self.kw_only is not None:
            kw.append(("kw_only", repr(self.kw_only)))
        if not serde_kw and not kw:
            return f"    {self.name}: {t}\n"
        if not serde_kw and len(kw) == 1 and kw[0][0] == "default":
            return f"    {self.name}: {t} = {kw[0][1]}\n"
        if self.via_metadata and serde_kw:
            md = "{" + ", ".join(f"'serde_{k}': {v}" for k, v in serde_kw) + "}"
            args = [f"metadata={md}"] + [f"{k}={v}" for k, v in kw]
            return f"    {self.name}: {t} = _d.field({', '.join(args)})\n"
        args = [f"{k}={v}" for k, v in kw + serde_kw]
        return f"    {self.name}: {t} = _s.field({', '.join(args)})\n"


class Cls:
    def __init__(self, name, fields=(), **kw):
        self.name = name
        self.fields = list(fields)
        self.bases = kw.pop("bases", [])
        self.tvars = kw.pop("tvars", [])
        self.rename_all = kw.pop("rename_all", None)
        self.tagging = kw.pop("tagging", None)          # ("external",) ("internal",tag) ...
        self.check = kw.pop("check", "strict")
        self.explicit_check = kw.pop("explicit_check", False)
        self.deny = kw.pop("deny", False)
        self.reuse = kw.pop("reuse", None)
        self.sets = kw.pop("sets", None)
        self.c_skip_none = kw.pop("c_skip_none", None)
        self.c_skip_default = kw.pop("c_skip_default", None)
        self.transparent = kw.pop("transparent", False)
        self.decorator = kw.pop("decorator", "serde")   # serde | plain | both
        self.frozen = kw.pop("frozen", False)
        self.kw_only = kw.pop("kw_only", False)
        self.slots = kw.pop("slots", False)
        self.eq = True
        self.body = kw.pop("body", "")
        self.class_var = kw.pop("class_var", False)
        self.explicit_dc = kw.pop("explicit_dc", False)
        self.decor_extra = kw.pop("decor_extra", "")
        self.pep695 = kw.pop("pep695", False)
        self.extra = {}
        assert not kw, kw
        self.mod = None

    # -- declaration ------------------------------------------------------------------------
    def decor_args(self):
        a = []
        if self.rename_all:
            a.append(f"rename_all={self.rename_all!r}")
        if self.tagging:
            a.append("tagging=" + tag_src(self.tagging))
        if self.check != "strict" or self.explicit_check:
            a.append(f"type_check=_s.{self.check}")
        if self.deny:
            a.append("deny_unknown_fields=True")
        if self.reuse is not None:
            a.append(f"reuse_instances_default={self.reuse}")
        if self.sets is not None:
            a.append(f"convert_sets_default={self.sets}")
        if self.c_skip_none is not None:
            a.append(f"skip_if_none={self.c_skip_none}")
        if self.c_skip_default is not None:
            a.append(f"skip_if_default={self.c_skip_default}")
        if self.transparent:
            a.append("transparent=True")
        if self.class_var:
            a.append("serialize_class_var=True")
        if self.decor_extra:
            a.append(self.decor_extra)
        return ", ".join(a)

    def decl(self):
        out = ""
        dc = []
        if self.frozen:
            dc.append("frozen=True")
        if self.kw_only:
            dc.append("kw_only=True")
        if self.slots:
            dc.append("slots=True")
        if self.decorator == "serde":
            args = self.decor_args()
            out += f"@_s.serde({args})\n" if args else "@_s.serde\n"
        elif self.decorator == "both":
            args = self.decor_args()
            out += f"@_s.deserialize({args})\n@_s.serialize({args})\n"
        if dc or self.explicit_dc or self.decorator in ("plain", "both"):
            out += f"@_d.dataclass({', '.join(dc)})\n" if dc else "@_d.dataclass\n"
        bases = [b.src() if isinstance(b, ClsT) else b.name for b in self.bases]
        if self.tvars and not self.pep695 and not any(isinstance(b, ClsT) for b in self.bases):
            bases.append(f"_t.Generic[{', '.join(self.tvars)}]")
        tp = f"[{', '.join(self.tvars)}]" if self.pep695 and self.tvars else ""
        out += f"class {self.name}{tp}" + (f"({', '.join(bases)})" if bases else "") + ":\n"
        body = "".join(f.src() for f in self.fields) + self.body
        out += body or "    pass\n"
        return out

    def all_fields(self):
        """Inherited fields first, overriding in place, as dataclasses do."""
        res = {}
        for b in reversed(self.bases):
            bc = b.cls if isinstance(b, ClsT) else b
            for f in bc.all_fields():
                res[f.name] = f
        for f in self.fields:
            if not f.initvar:
                res[f.name] = f
        return list(res.values())

    @property
    def py(self):
        return self.mod[self.name]

    def for_value(self, v):
        t = type(v)
        if t is self.py:
            return self
        for c in self.family:
            if c.py is t:
                return c
        return self

    # -- values -----------------------------------------------------------------------------
    def gen(self, g, args=()):
        g.depth += 1
        g.count += 1
        try:
            kw = {}
            for f in self.all_fields():
                if f.classvar or not f.init:
                    continue
                if f.has_default() and g.r.random() < g.p_default:
                    continue
                kw[f.name] = self.fty(f, args).gen(g)
            return self.py(**kw)
        finally:
            g.depth -= 1

    def fty(self, f, args):
        """The type of a field, given the type arguments of the class."""
        if not self.generic():
            return f.ty
        # What a base class is derived with belongs to the class; what the class is used with does not.
        return subst(self.own_ty(f), dict(zip(self.tvars, args)))

    def own_ty(self, f):
        """The type of a field in terms of the type variables of this class."""
        if any(x is f for x in self.fields):
            return f.ty
        for b in self.bases:
            bc, bargs = (b.cls, b.args) if isinstance(b, ClsT) else (b, [])
            if any(x is f for x in bc.all_fields()):
                return subst(bc.own_ty(f), dict(zip(bc.tvars, bargs)), bind=False)
        return f.ty

    def generic(self):
        return bool(self.tvars) or any((b.cls if isinstance(b, ClsT) else b).generic() for b in self.bases)

    # -- model ------------------------------------------------------------------------------
    def wire_name(self, f):
        if f.rename:
            return f.rename
        if self.rename_all:
            return getattr(casefy, self.rename_all)(f.name)
        return f.name

    def ser_fields(self):
        for f in self.all_fields():
            if f.classvar:
                continue
            yield f
        if self.class_var:
            for f in self.all_fields():
                if f.classvar:
                    yield f

    def ser_opts(self, o):
        if o.reuse is None:
            o = o.w(reuse=self.reuse if self.reuse is not None else self.default_reuse())
        if o.sets is None:
            o = o.w(sets=self.sets if self.sets is not None else False)
        return self.own_opts(o)

    def own_opts(self, o):
        plain = self.decorator == "plain"
        return o.w(check="disabled" if plain else self.check,
                   tagging=("external",) if plain or not self.tagging else self.tagging)

    def default_reuse(self):
        # decorator default: `serde` says True, a bare `serialize` says False
        return self.decorator == "serde"

    def ser_one(self, f, v, o, args=()):
        if f.serializer:
            return f.serializer[1](v)
        return self.fty(f, args).ser(v, o)

    def skipped(self, f, v, w, o):
        """v: the field's value, w: its serialized form."""
        sin = f.skip_if_none if f.skip_if_none is not None else bool(self.c_skip_none)
        sid = f.skip_if_default if f.skip_if_default is not None else bool(self.c_skip_default)
        if f.skip_if and f.skip_if[1](w):
            return True
        if f.skip_if_false and not w:
            return True
        if sin and v is None:
            return True
        if sid and f.has_default() and not f.classvar and v == f.default_value(self.mod):
            return True
        if o.skip_none and w is None:
            return True
        return False

    def ser(self, v, o, args=()):
        o = self.ser_opts(o)
        if self.transparent:
            f = self.transparent_field()
            return self.ser_one(f, getattr(v, f.name), o, args)
        if not o.named:
            out = []
            for f in self.ser_fields():
                if f.skip or f.skip_ser:
                    continue
                out.append(self.ser_one(f, getattr(v, f.name), o, args))
            return tuple(out)
        res = {}
        for f in self.ser_fields():
            if f.skip or f.skip_ser:
                continue
            x = getattr(v, f.name)
            if f.flatten:
                if isinstance(f.ty, (DictT, Bare)):
                    continue
                if x is None:
                    continue
                declared = flat_cls(f.ty).accepted()
                sub = self.ser_one(f, x, o, args)
                if self.skipped(f, x, sub, o):
                    continue
                for k, w in sub.items():
                    if k in declared or k not in res:
                        res[k] = w
                continue
            w = self.ser_one(f, x, o, args)
            if self.skipped(f, x, w, o):
                continue
            res[self.wire_name(f)] = w
        for f in self.ser_fields():
            if f.flatten and isinstance(f.ty, (DictT, Bare)) and not (f.skip or f.skip_ser):
                for k, w in (getattr(v, f.name) or {}).items():
                    if k not in res:
                        res[k] = w
        return res

    def transparent_field(self):
        return [f for f in self.all_fields() if f.init and not f.skip and not f.classvar][0]

    def de_fields(self):
        return [f for f in self.all_fields()
                if not f.classvar and f.init and not f.skip and not f.skip_de]

    def de_keys(self, f):
        return [self.wire_name(f), *(f.alias or [])]

    def accepted(self):
        """All keys a flattening parent must treat as claimed by this class."""
        out = set()
        for f in self.all_fields():
            if f.classvar:
                continue
            if f.flatten:
                c = flat_cls(f.ty)
                if c:
                    out |= c.accepted()
                continue
            out |= set(self.de_keys(f))
        return out

    def captures(self):
        return any(f.flatten and (flat_cls(f.ty) is None or flat_cls(f.ty).captures())
                   for f in self.de_fields())

    def de(self, w, o, args=()):
        if o.reuse is None and self.reuse is not None:
            o = o.w(reuse=self.reuse)
        o = self.own_opts(o)
        if self.transparent:
            f = self.transparent_field()
            val = self.fty(f, args).de(w, o) if not f.deserializer else f.deserializer[1](w)
            return self.build({f.name: val}, o, args)
        if o.named:
            if not isinstance(w, dict):
                if not self.de_fields():
                    raise Unknown
                # without a field whose key must be there, data of any other type may pass for an empty mapping
                if all(f.has_default() or isinstance(f.ty, (OptT, NoneT))
                       or (isinstance(f.ty, UnionT) and any(isinstance(e, NoneT) for e in f.ty.els)) for f in self.de_fields()):
                    raise Unknown
                raise ModelError("not a mapping")
            return self.de_named(w, o, args)
        fs = self.de_fields()
        if any(f.flatten for f in fs):
            raise Unknown
        # values are read from the positions at which they are written
        written = [f for f in self.ser_fields() if not (f.classvar or f.skip or f.skip_ser)]
        at = {f.name: k for k, f in enumerate(written)}
        if any(f.name not in at and not f.has_default() for f in fs):
            raise ModelError("never given")
        fs = [f for f in fs if f.name in at]
        try:
            n = len(w)
        except TypeError:
            raise Unknown if all(isinstance(f.ty, NoneT) for f in fs) else ModelError("not a sequence")
        if not isinstance(w, (list, tuple)):
            raise Unknown
        if any(at[f.name] >= n for f in fs):
            if all(isinstance(f.ty, NoneT) for f in fs if at[f.name] >= n):
                raise Unknown
            raise ModelError("too short")
        if n != len(written):
            raise Unknown
        kw = {}
        for f in fs:
            x = w[at[f.name]]
            kw[f.name] = f.deserializer[1](x) if f.deserializer else self.fty(f, args).de(x, o)
        return self.build(kw, o, args)

    def de_named(self, w, o, args):
        kw = {}
        own = set()
        for f in self.all_fields():
            if not f.classvar and not f.flatten:
                own |= set(self.de_keys(f))
        known = self.accepted()
        has_dict = any(f.flatten and flat_cls(f.ty) is None for f in self.de_fields())
        if self.deny and not has_dict:
            extra = set(w) - known
            if extra:
                if self.captures():
                    raise Unknown
                raise ModelError(f"unknown {extra}")
        for f in self.de_fields():
            ty = self.fty(f, args)
            if f.flatten:
                c = flat_cls(ty)
                if c is None:
                    kw[f.name] = {k: x for k, x in w.items() if k not in known}
                    continue
                keep = c.captures() or not has_dict
                sub = {k: x for k, x in w.items() if k in c.accepted() or (keep and k not in known)}
                if isinstance(ty, OptT):
                    inner = ty.el
                    present = [k for k in w if k in c.accepted()]
                    need = c.accepted()
                    if not present:
                        kw[f.name] = None if not f.has_default() else f.default_value(self.mod)
                        continue
                    if set(c.primary_keys()) - set(w):
                        raise Unknown
                    try:
                        kw[f.name] = inner.de(sub, o)
                    except ModelError:
                        if need - set(w):
                            raise Unknown from None     # partly present
                        raise
                    continue
                if f.has_default():
                    pk = set(c.primary_keys())
                    if not (c.accepted() & set(w)):
                        kw[f.name] = f.default_value(self.mod)
                        continue
                    if pk - set(w):
                        raise Unknown
                kw[f.name] = ty.de(sub, o)
                continue
            for k in self.de_keys(f):
                if k in w:
                    x = w[k]
                    if f.deserializer:
                        kw[f.name] = f.deserializer[1](x)
                    else:
                        kw[f.name] = ty.de(x, o)
                    break
            else:
                if f.has_default():
                    continue
                if isinstance(f.ty, OptT) or (isinstance(f.ty, UnionT) and any(isinstance(e, NoneT) for e in f.ty.els)):
                    kw[f.name] = None
                    continue
                if isinstance(f.ty, NoneT):
                    raise Unknown
                raise ModelError(f"missing {f.name}")
        return self.build(kw, o, args)

    def primary_keys(self):
        out = [self.wire_name(f) for f in self.de_fields() if not f.flatten]
        for f in self.de_fields():
            if f.flatten and flat_cls(f.ty) and not isinstance(f.ty, OptT):
                out += flat_cls(f.ty).primary_keys()
        return out

    def build(self, kw, o, args=()):
        if self.check == "strict" and self.decorator != "plain":
            for f in self.all_fields():
                if f.name in kw:
                    k = f.ty.isa(kw[f.name])
                    if k == "no":
                        raise ModelError(f"{f.name}: ill-typed {kw[f.name]!r}")
                    if k == "maybe":
                        raise Unknown
        elif self.decorator == "plain":
            # Whether a plain class is checked depends on where it was seen first.
            if any(f.name in kw and f.ty.isa(kw[f.name]) != "yes" for f in self.all_fields()):
                raise Unknown
        return self.raw(kw)

    def raw(self, kw):
        try:
            return self.py(**kw)
        except Exception as e:
            if type(e).__name__ in ("BeartypeCallHintParamViolation", "SerdeError"):
                raise Unknown
            raise


def flat_cls(ty):
    if isinstance(ty, ClsT):
        return ty.cls
    if isinstance(ty, OptT) and isinstance(ty.el, ClsT):
        return ty.el.cls
    return None


def subst(ty, env, bind=True):
    if isinstance(ty, TVar):
        t = env.get(ty.name)
        return AnyT() if t is None else t if isinstance(t, (TVar, BoundT, AnyT)) or not bind else BoundT(t)
    if isinstance(ty, ClsT):
        if ty.args:
            return ClsT(ty.cls, [subst(a, env, bind) for a in ty.args])
        return ty
    if not ty.kids():
        return ty
    import copy
    n = copy.copy(ty)
    for k, v in list(vars(n).items()):
        if isinstance(v, Ty):
            setattr(n, k, subst(v, env, bind))
        elif isinstance(v, list) and v and all(isinstance(x, Ty) for x in v):
            setattr(n, k, [subst(x, env, bind) for x in v])
    return n


def tag_src(t, cls=None):
    if t[0] == "external":
        return "_s.ExternalTagging" + (f"({cls})" if cls else "")
    if t[0] == "untagged":
        return "_s.Untagged" + (f"({cls})" if cls else "")
    if t[0] == "internal":
        return f"_s.InternalTagging({t[1]!r}" + (f", {cls}" if cls else "") + ")"
    return f"_s.AdjacentTagging({t[1]!r}, {t[2]!r}" + (f", {cls}" if cls else "") + ")"


# ---------------------------------------------------------------------------------------------
# literals and comparison
def numpy_lit(v):
    name = {"bool": "bool_"}.get(type(v).__name__, type(v).__name__)
    if name == "ndarray":
        return f"_np.array({lit(v.tolist())}, dtype={str(v.dtype)!r})"
    return f"_np.{name}({str(v)!r})" if name in ("datetime64", "str_") else f"_np.{name}({lit(v.item())})"


def lit(v):
    """Source text of a value, in terms of HEADER's names."""
    if isinstance(v, enum.Enum):
        if isinstance(v, enum.Flag) and v.name is None:
            return f"{type(v).__name__}({v.value})"
        return f"{type(v).__name__}[{v.name!r}]"
    if v is None or isinstance(v, bool):
        return repr(v)
    if type(v).__module__ == "numpy":
        return numpy_lit(v)
    if isinstance(v, float):
        s = repr(float(v))
        if not math.isfinite(v):
            s = f"float({s!r})"
        return s if type(v) is float else f"{type(v).__name__}({s})"
    if isinstance(v, (int, str, bytes)):
        base = [b for b in (int, str, bytes) if isinstance(v, b)][0]
        s = base.__repr__(v)
        return s if type(v) is base else f"{type(v).__name__}({s})"
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    if type(v) is tuple:
        return "(" + "".join(lit(x) + ", " for x in v) + ")"
    if isinstance(v, collections.deque):
        return f"_c.deque({lit(list(v))})"
    if isinstance(v, collections.Counter):
        return f"_c.Counter({lit(dict(v))})"
    if isinstance(v, collections.defaultdict):
        f = v.default_factory
        fn = {"defaultdict": "_c.defaultdict", "deque": "_c.deque"}.get(getattr(f, "__name__", None), getattr(f, "__name__", "None"))
        return f"_c.defaultdict({fn}, {lit(dict(v))})"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{lit(k)}: {lit(x)}" for k, x in v.items()) + "}"
    if isinstance(v, frozenset):
        return f"frozenset({lit(list(v))})"
    if isinstance(v, set):
        return f"set({lit(list(v))})"
    if isinstance(v, decimal.Decimal):
        return f"_dec.Decimal({str(v)!r})"
    if isinstance(v, pathlib.PurePath):
        return f"_pl.{type(v).__name__}({str(v)!r})"
    if isinstance(v, uuid.UUID):
        return f"_u.UUID({str(v)!r})"
    if type(v).__module__ == "ipaddress":
        return f"_ip.{type(v).__name__}({str(v)!r})"
    if isinstance(v, (_dt.date, _dt.time)):
        return repr(v).replace("datetime.", "_dt.")
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        args = [f"{f.name}={lit(getattr(v, f.name))}" for f in dataclasses.fields(v) if f.init]
        return f"{type(v).__name__}({', '.join(args)})"
    return repr(v)


def same(a, b):
    """Deep equality including concrete types; NaN equals NaN and 0.0 differs from -0.0."""
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is float or isinstance(a, float):
        if a != a:
            return b != b
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory:
            return False
        kb = {k: k for k in b}
        for k, v in a.items():
            if k not in kb:
                if k != k:      # nan key
                    return any(kk != kk for kk in kb)
                return False
            if type(kb[k]) is not type(k) or not same(kb[k], k) or not same(v, b[k]):
                return False
        return True
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        return all(same(getattr(a, f.name, MISSING), getattr(b, f.name, MISSING)) for f in dataclasses.fields(a))
    if ta.__module__ == "numpy" or ta.__module__.startswith("numpy"):
        import numpy as np
        if isinstance(a, np.ndarray):
            return (a.dtype == b.dtype and a.shape == b.shape
                    and (a.dtype.kind != "f" and a.tolist() == b.tolist() or a.dtype.kind == "f"
                         and np.array_equal(a, b, equal_nan=True)))
        return bool(a == b) or (a != a and b != b)
    if isinstance(a, _dt.datetime):
        return a == b and a.utcoffset() == b.utcoffset() and a.isoformat() == b.isoformat()
    if isinstance(a, decimal.Decimal):
        return str(a) == str(b)
    try:
        return bool(a == b)
    except Exception:
        return False


def key_order(w):
    """Nested key order, for comparing declaration order of the dict form."""
    if isinstance(w, dict):
        return [(k, key_order(v)) for k, v in w.items()]
    if isinstance(w, (list, tuple)):
        return [key_order(v) for v in w]
    return None


def snap(v):
    """Structural snapshot independent of the object's identity."""
    import copy
    return copy.deepcopy(v)


# ---------------------------------------------------------------------------------------------
_counter = [0]


class Program:
    """A module made of declarations, executed and bound to its nodes."""

    def __init__(self, decls, header="", future=False):
        self.decls = decls
        self.header = header
        self.future = future

    def source(self):
        out = ("from __future__ import annotations\n" if self.future else "") + HEADER + self.header
        for d in self.decls:
            out += "\n" + (d if isinstance(d, str) else d.decl())
        return out

    def load(self):
        _counter[0] += 1
        name = f"vcase_{_counter[0]}"
        m = types.ModuleType(name)
        sys.modules[name] = m
        self.module = m
        code = compile(self.source(), f"<{name}>", "exec", dont_inherit=True)
        exec(code, m.__dict__)
        self.bind(m.__dict__)
        return m

    def bind(self, ns):
        classes = [d for d in self.decls if isinstance(d, Cls)]
        for d in self.decls:
            if isinstance(d, str):
                continue
            d.mod = ns
            if isinstance(d, Cls):
                d.family = classes
                for f in d.fields:
                    for t in f.ty.walk():
                        if isinstance(t, (PrimSub, EnumT)) and not hasattr(t, "mod"):
                            t.mod = ns
        return self

    def unload(self):
        sys.modules.pop(self.module.__name__, None)
