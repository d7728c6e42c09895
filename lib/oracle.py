"""Calling the library, classifying what happened, comparing it with what the model expects."""
from __future__ import annotations

import sys

import serde
import serde.json
import serde.msgpack
import serde.pickle
import serde.toml
import serde.yaml
from serde import SerdeError

from . import spec
from .runner import Skip
from .spec import Cls, ClsT, HEADER, ModelError, Opts, Program, Unknown, lit, same, key_order

FMT = {"json": serde.json, "msgpack": serde.msgpack, "pickle": serde.pickle, "toml": serde.toml, "yaml": serde.yaml}


class Out:
    """Outcome of a call: kind 'ok' | 'serde' | 'beartype' | 'boom'."""
    __slots__ = ("kind", "v", "exc")

    def __init__(self, kind, v=None, exc=None):
        self.kind, self.v, self.exc = kind, v, exc

    def __repr__(self):
        if self.kind == "ok":
            return f"returned {short(self.v)}"
        return f"raised {type(self.exc).__module__}.{type(self.exc).__name__}: {str(self.exc)[:300]}"


def short(v, n=600):
    try:
        s = lit(v)
    except Exception:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def call(fn, *a, **k):
    try:
        return Out("ok", fn(*a, **k))
    except SerdeError as e:
        return Out("serde", exc=e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if type(e).__name__.startswith("Beartype"):
            return Out("beartype", exc=e)
        return Out("boom", exc=e)


class Exp:
    __slots__ = ("kind", "v")

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v

    def __repr__(self):
        return {"ok": lambda: f"the value {short(self.v)}", "reject": lambda: "SerdeError",
                "unknown": lambda: "a value or SerdeError"}[self.kind]()


def expect(fn, *a, **k):
    """What the model says: ok / reject / unknown."""
    spec.MEMO = {}
    try:
        return Exp("ok", fn(*a, **k))
    except ModelError:
        return Exp("reject")
    except Unknown:
        return Exp("unknown")
    finally:
        spec.MEMO = None


class Case:
    """A loaded program plus the bookkeeping needed to report and to count."""

    def __init__(self, rec, prog, keep=False):
        self.rec, self.prog = rec, prog
        self.lines = []
        try:
            prog.load()
        except Exception as e:
            rec.violation(f"declaring the classes raised {type(e).__name__}: {str(e)[:300]}", self.script())
        self.ns = prog.module.__dict__
        rec.event("programs")
        rec.event("classes", sum(isinstance(d, Cls) for d in prog.decls))
        self.keep = keep

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not self.keep:
            self.prog.unload()

    def script(self, *lines):
        return (self.prog.source() + "\nfrom serde import *\nfrom serde.json import *\nfrom serde.yaml import *\n"
                "from serde.toml import *\nfrom serde.msgpack import *\nfrom serde.pickle import *\n"
                + "\n".join(self.lines + [str(x) for x in lines]) + "\n")

    def value(self, node, g, args=()):
        """A generated value; construction with well-typed data must work."""
        g.count = 0
        try:
            return node.gen(g)
        except (ModelError, Unknown, Skip):
            raise
        except Exception as e:
            self.rec.violation(f"constructing a well-typed {node.src() if hasattr(node, 'src') else node.name} "
                               f"raised {type(e).__name__}: {str(e)[:300]}", self.script())

    def evaluate(self, key=None):
        self.rec.evaluate((self.prog.source(), key) if key is not None else None)

    def fail(self, what, *lines):
        self.rec.violation(what, self.script(*lines))

    def must(self, exp, out, what, *lines, eq=same, order=False, exact_reject=True):
        """Judge an outcome.  Returns True if the outcome was fully determined."""
        rec = self.rec
        self.evaluate((what, lines))
        if exp.kind == "ok":
            rec.event("accepts")
            if out.kind != "ok":
                self.fail(f"{what}: expected {exp!r} but it {out!r}", *lines)
            if not eq(exp.v, out.v):
                self.fail(f"{what}: expected {exp!r} but it {out!r}", *lines)
            if order and key_order(exp.v) != key_order(out.v):
                self.fail(f"{what}: wrong key order: expected {exp!r} but it {out!r}", *lines)
            return True
        if exp.kind == "reject":
            rec.event("rejects")
            if out.kind != "serde":
                self.fail(f"{what}: expected SerdeError but it {out!r}", *lines)
            return True
        rec.event("undetermined")
        if out.kind not in ("ok", "serde"):
            rec.event("undetermined_other")
        return False

    def ok(self, out, what, *lines):
        if out.kind != "ok":
            self.fail(f"{what}: expected a value but it {out!r}", *lines)
        return out.v


def opts_src(kw):
    return "".join(f", {k}={v!r}" for k, v in kw.items())


def cls_nodes(prog):
    return [d for d in prog.decls if isinstance(d, Cls)]
