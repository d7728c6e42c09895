"""The raw format libraries, called independently of the library under test."""
from __future__ import annotations

import json
import math
import pickle
import re
import sys
import tomllib

import msgpack
import tomli_w
import yaml

from .spec import Opts, same

ORJSON = "orjson" in sys.modules or False


def orjson():
    return sys.modules.get("orjson")


def dumps(fmt, w, **kw):
    if fmt == "json":
        oj = orjson()
        if oj:
            return oj.dumps(w, option=kw.get("option", 0) | oj.OPT_NON_STR_KEYS).decode()
        return json.dumps(w, **kw)
    if fmt == "yaml":
        return yaml.safe_dump(w, **kw)
    if fmt == "toml":
        if foreign(w):
            raise TypeError("tomli_w does not terminate on IP networks")
        return tomli_w.dumps(w, **kw)
    if fmt in ("msgpack", "msgpack_tuple"):
        return msgpack.packb(w, **kw)
    if fmt == "pickle":
        return pickle.dumps(w, **kw)
    raise AssertionError(fmt)


def foreign(w):
    if isinstance(w, dict):
        return any(foreign(k) or foreign(v) for k, v in w.items())
    if isinstance(w, (list, tuple)):
        return any(map(foreign, w))
    return type(w).__module__ == "ipaddress"


def loads(fmt, d, **kw):
    if fmt == "json":
        return json.loads(d, **kw)
    if fmt == "yaml":
        return yaml.safe_load(d, **kw)
    if fmt == "toml":
        return tomllib.loads(d, **kw)
    if fmt in ("msgpack", "msgpack_tuple"):
        return msgpack.unpackb(d, **{"use_list": False, **kw})
    if fmt == "pickle":
        return pickle.loads(d, **kw)
    raise AssertionError(fmt)


FORMATS = ["json", "yaml", "toml", "msgpack", "msgpack_tuple", "pickle"]


def ser_opts(fmt, **kw):
    """Documented defaults of to_<fmt>."""
    d = dict(named=fmt != "msgpack_tuple", reuse=False, sets=True, skip_none=fmt == "toml")
    d.update(kw)
    return Opts(**d)


def de_opts(fmt, **kw):
    d = dict(named=fmt != "msgpack_tuple", reuse=False, num={"json": "json", "yaml": "yaml"}.get(fmt))
    d.update(kw)
    return Opts(**d)


def names(fmt):
    """(to function, from function, extra keywords)"""
    if fmt == "msgpack_tuple":
        return "to_msgpack", "from_msgpack", {"named": False}
    return f"to_{fmt}", f"from_{fmt}", {}


FLOATKEY = re.compile(r"^-?(\d+\.\d+([eE][+-]?\d+)?|\d+[eE][+-]?\d+)$")


def norm(x):
    """Tuples as lists and float-looking string keys in one spelling."""
    if isinstance(x, dict):
        return {(repr(float(k)) if isinstance(k, str) and FLOATKEY.match(k) else k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def finite(x):
    if isinstance(x, float):
        return math.isfinite(x)
    if isinstance(x, dict):
        return all(finite(k) and finite(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(map(finite, x))
    return True
