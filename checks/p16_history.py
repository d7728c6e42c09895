"""P16: the same operations give the same results after any history (fresh process, polluted process, other orders)."""
import dataclasses
import random
import re
import sys
import types

import serde
from serde import SerdeError

from checks import p07_skip, p08_flatten
from checks.p14_malformed import mutate
from lib import child, formats
from lib.gen import Gen, PG, nullable
from lib.oracle import cls_nodes
from lib.spec import ClsT, DateT, DictT, EnumT, Float, Int, ListT, Lit, ModelError, NoneT, OptT, Opts, Str, StrSer, TupleT, UnionT, Unknown, VarTupleT, lit, tag_src

PROP = "P16"
BUDGET = {"quick": 480, "thorough": 8000}
CHUNK = 10
CASE_SECONDS = 120
RULE = "distinct (program, history, operation) whose result was compared with the operation alone in a fresh process"
MIN = {"evaluations": 13000, "distinct": 10000, "histories": 1000, "alone": 1000, "polluters": 380, "reordered": 240,
       "direct_unions": 650}

IMPORTS = ("from serde import (to_dict, to_tuple, from_dict, from_tuple)\nfrom serde.json import to_json, from_json\n"
           "from serde.yaml import to_yaml, from_yaml\nfrom serde.toml import to_toml, from_toml\n"
           "from serde.msgpack import to_msgpack, from_msgpack\nfrom serde.pickle import to_pickle, from_pickle\n")
WARM = "import serde as _s\n@_s.serde\nclass Warm_zz9:\n    aa_q: str\n"


def canon(v):
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return f"{type(v).__name__}(" + ", ".join(f"{f.name}={canon(getattr(v, f.name, '<unset>'))}" for f in dataclasses.fields(v)) + ")"
    if isinstance(v, (set, frozenset)):
        return f"{type(v).__name__}({sorted(map(canon, v))})"
    if isinstance(v, dict):
        return f"{type(v).__name__}{{" + ", ".join(f"{canon(k)}: {canon(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
        return f"{type(v).__name__}[" + ", ".join(map(canon, v)) + "]"
    if isinstance(v, bytes):
        v = re.sub(rb"vhist_\d+", b"vhist", v)  # pickle names the module of a class
    return f"{type(v).__name__}:{v!r}"


def outcome(src, ns):
    try:
        v = eval(src, ns)
    except SerdeError:
        return "SerdeError"
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        return f"{type(e).__name__}"
    return canon(v)


_n = [0]


def declare(src, extra=""):
    _n[0] += 1
    name = f"vhist_{_n[0]:03d}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(src + "\n" + IMPORTS, f"<{name}>", "exec", dont_inherit=True), m.__dict__)
    return m.__dict__


def prepare(pg):
    """Unions inside class fields in one order (typing caches equal unions)."""
    for d in cls_nodes_of(pg):
        for f in d.fields:
            for t in f.ty.walk():
                if isinstance(t, UnionT):
                    t.els.sort(key=lambda e: e.src())
                    t.form = "union"


def cls_nodes_of(prog):
    return cls_nodes(prog)


def program(r, rec, names):
    k = r.random()
    if k < 0.15:
        return p08_flatten.make_unique(r, rec)[0]
    kw = dict(depth=r.choice([1, 2]), abstract=False, alias695=False, max_fields=3, ncls=(1, 3), class_names=names, plain=0.25, both=0.35,
              inherit=0.3, reuse_default=0.3, sets_default=0.3, alias=0.05, defaults=0.3, future=0.15)
    if k < 0.25:
        return p07_skip.SkipPG(r, class_skip=0.25, **kw).program()
    return PG(r, **kw).program()


NAMES = ["A", "B", "C", "D"]


class NoRec:
    def event(self, *a):
        pass

    skip = event


def build(seed, n_ops):
    """In a child: a program as text, and operations on it as text."""
    r = random.Random(seed)
    names = list(NAMES)
    prog = program(r, NoRec(), names)
    prepare(prog)
    prog.load()
    ns = prog.module.__dict__
    g = Gen(r, ns, p_default=0.3)
    classes = cls_nodes(prog)
    ops, bad, kinds = [], [], []
    keys = ["type", "a"] + [k for d in classes for f in d.all_fields() for k in (f.name, d.wire_name(f))] + [d.name for d in classes]
    for _ in range(n_ops * 3):
        if len(ops) >= n_ops:
            break
        try:
            src, kind, w = op(r, g, prog, classes)
        except (ModelError, Unknown):
            continue
        ops.append(src)
        kinds.append(kind)
        if w is not None and r.random() < 0.8:
            typ, data = w
            bad.append(f"from_dict({typ}, {lit(mutate(r, data, keys, g))})")
    blocks = [d if isinstance(d, str) else d.decl() for d in prog.decls]
    head = ("from __future__ import annotations\n" if prog.future else "") + prog.source()[:0]
    full = prog.source()
    return dict(source=full, head=full[:full.index("\n" + blocks[0])] if blocks else full, blocks=blocks,
                names=[None if isinstance(d, str) else d.name for d in prog.decls], classes=[d.name for d in classes], ops=ops, kinds=kinds, bad=bad)


def direct_union(r, classes, unions=True):
    els = [ClsT(c) for c in classes if not c.transparent and not any(f.flatten for f in c.all_fields())]
    r.shuffle(els)
    els = els[:r.randint(0, 3)]
    pool = [Int(), Str(), Float(), ListT(Int())] + ([NoneT()] if len(els) > 1 else [])
    r.shuffle(pool)
    els += pool[:r.randint(1 if els else 2, 3)]
    els = [e for e in els if e is not None]
    r.shuffle(els)
    return UnionT(els, "union")


def op(r, g, prog, classes):
    g.count = 0
    k = r.random()
    cl = r.choice(classes)
    t = ClsT(cl)
    if k < 0.3:
        # the same union again and again, represented in different ways
        seen = prog.__dict__.setdefault("direct", [])
        if not seen or r.random() < 0.4:
            seen.append(direct_union(r, classes))
        u = r.choice(seen)
        wrap = None if r.random() < 0.3 else r.choice([("internal", r.choice(["t", "t y"])), ("adjacent", r.choice(["t", "t y"]), r.choice(["c", "d"])),
                                                       ("adjacent", "t", r.choice(["c", "d"])), ("external",), ("untagged",)])
        src = u.src() if wrap is None else tag_src(wrap, u.src())
        e = r.choice(u.els)
        v = e.gen(g)
        o = Opts(reuse=False, sets=True, tagging=wrap)
        if r.random() < 0.5:
            f = r.choice(["dict", "json", "yaml", "msgpack"])
            return f"to_{f}({lit(v)}, {'c' if f == 'dict' else 'cls'}={src})", "union", None
        w = u.ser(v, o)
        return f"from_dict({src}, {lit(w)})", "union", (src, w)
    if k > 0.88:
        # values of types that are no classes
        seen = prog.__dict__.setdefault("scalars", [])
        if not seen or r.random() < 0.3:
            seen.append(r.choice([StrSer(r.choice(list(StrSer.TYPES))), DateT(r.choice(list(DateT.PY))), Int(), Str()]
                                 + [d for d in prog.decls if isinstance(d, EnumT)]))
        e = r.choice(seen)
        x = r.choice([e, e, ListT(e), DictT(Str(), e), TupleT([e, Int()])])
        v = x.gen(g)
        if r.random() < 0.6:
            f = r.choice(["to_dict", "to_dict", "to_tuple", "to_json", "to_yaml"])
            return f"{f}({lit(v)}{', reuse_instances=False' if f in ('to_dict', 'to_tuple') else ''})", "scalar", None
        return f"from_dict({x.src()}, {lit(x.ser(v, Opts(reuse=False, sets=True)))})", "scalar", None
    k /= 0.88
    top = r.choice([t, t, ListT(t), DictT(Str(), t), TupleT([t, Int()]), VarTupleT(t)] + ([OptT(t)] if not nullable(t) else []))
    v = top.gen(g)
    kw = ""
    reuse, sets = None, None
    if r.random() < 0.4:
        reuse = r.choice([True, False])
        kw += f", reuse_instances={reuse}"
    if k < 0.58:
        if r.random() < 0.4:
            kw += f", convert_sets={r.choice([True, False])}"
        f = r.choice(["to_dict", "to_dict", "to_tuple"])
        return f"{f}({lit(v)}{kw})", "write", None
    if k < 0.68:
        f = r.choice(["json", "yaml", "msgpack", "pickle", "toml"])
        return f"to_{f}({lit(v)})", "write", None
    named = r.random() < 0.8
    w = top.ser(v, Opts(named=named, reuse=bool(reuse), sets=True))
    f = "from_dict" if named else "from_tuple"
    if k < 0.9 or not named:
        return f"{f}({top.src()}, {lit(w)}{kw})", "read", (top.src(), w) if named else None
    fmt = r.choice(["json", "yaml", "msgpack"])
    try:
        doc = formats.dumps(fmt, top.ser(v, formats.ser_opts(fmt)))
        top.de(formats.loads(fmt, doc), formats.de_opts(fmt))
    except (ModelError, Unknown):
        raise
    except Exception:
        raise Unknown
    return f"from_{fmt}({top.src()}, {lit(doc)})", "read", None


def alone(source, op):
    return outcome(op, declare(source))


def history(main, order, before, mixed, variant, twice):
    """Declare and use the polluters, then the program (possibly declared in another order), then run the operations."""
    for p in before:
        try:
            ns = declare(p["source"])
        except Exception:
            continue
        for o in p["ops"] + p["bad"]:
            outcome(o, ns)
    ns = declare(variant)
    late = []
    for p in mixed:
        late.append((declare(p["source"]), p))
    res = []
    bad = list(main["bad"])
    for n, i in enumerate(order):
        if late and n % 2:
            pns, p = late[n % len(late)]
            if p["ops"]:
                outcome(p["ops"][n % len(p["ops"])], pns)
        if mixed and bad:
            outcome(bad.pop(), ns)
        res.append((i, outcome(main["ops"][i], ns)))
        if twice:
            res.append((i, outcome(main["ops"][i], ns)))
    return res


BOTH = re.compile(r"(@_s\.deserialize\([^\n]*\)\n)(@_s\.serialize\([^\n]*\)\n)")


def mess(r, n, t=None):
    """Uses of a class, many of them failing, which leave no trace."""
    k = r.choice(["field", "field", "field", "use", "derive"])
    t = t or r.choice(["_t.Union[None, X]", "_t.Optional[X]", "_t.Union[X, None, int]", "_t.Union[int, X]", "list[X]", "_t.Union[None, list[X]]", "X", "_t.Union[X, str]",
                  "dict[str, X]", "_t.Literal[1, 'X']", "type[X]", "complex | X", "_t.Union[None, X, complex]"])
    t = t.replace("X", n)
    if k == "field":
        extra = r.choice(["", "", " = _s.field(flatten=True)", " = _s.field(flatten=True)", " = _s.field(default=None, flatten=True)", " = _s.field(rename='a', skip=True, default=None)"])
        opt = r.choice(["", "(transparent=True)", "(tagging=_s.Untagged)", "(type_check=_s.strict, rename_all='camelcase')", "(deny_unknown_fields=True)"])
        s = f"@_s.serde{opt}\nclass Mess_zz:\n    mess: {t}{extra}\n_s.from_dict(Mess_zz, {{'mess': None}})"
    elif k == "derive":
        s = f"@_s.serde(rename_all='constcase')\nclass Mess_zz({n}):\n    mess: complex = _s.field(default=0j, skip=True)\n_s.from_dict(Mess_zz, {{}})"
    else:
        s = f"_s.from_dict({t}, {r.choice(['None', '5', '{}', '[]', repr({'a': 1, n: None})])})"
    return "try:\n" + "".join("    " + x + "\n" for x in s.split("\n")) + "except Exception: pass\n"


def variants(r, p):
    """The same declarations in other orders of classes and of decorators."""
    blocks = list(p["blocks"])
    blocks = [BOTH.sub(lambda m: m[2] + m[1], b) if r.random() < 0.5 else b for b in blocks]
    if "from __future__" not in p["head"]:
        names = p["names"]
        deps = [{j for j, n in enumerate(names) if n and j != i and re.search(rf"\b{re.escape(n)}\b", b)} for i, b in enumerate(blocks)]
        deps = [{j for j in d if j < i} for i, d in enumerate(deps)]
        done, out = set(), []
        while len(out) < len(blocks):
            ready = [i for i in range(len(blocks)) if i not in done and deps[i] <= done]
            i = r.choice(ready)
            done.add(i)
            out.append(blocks[i])
        blocks = out
    names = [n for n in p["classes"]]
    out, known = p["head"], []
    for b in blocks:
        hints = [x for m in re.findall(r"_t\.Optional\[(\w+)\]|(\w+) \| None|_t\.Union\[(\w+), None\]", b) for x in m if x in known]
        if hints and r.random() < 0.6:
            out += "\n" + mess(r, r.choice(hints), "_t.Union[None, X]")
        out += "\n" + b
        known += [n for n in names if re.search(rf"^class {n}\b", b, re.M)]
        if known and r.random() < 0.4:
            out += "\n" + mess(r, r.choice(known))
    return out


def setup(cfg):
    # Imports what the library imports on first use; the forked processes start from here.
    ns = declare(WARM)
    outcome("[to_dict(Warm_zz9('x')), from_dict(Warm_zz9, {'aa_q': 'x'})]", ns)


def case(r, rec, i, cfg):
    try:
        main = child.run(build, r.random(), 10)
        polluters = [child.run(build, r.random(), 5) for _ in range(r.choice([1, 2]))]
    except child.ChildError as e:
        raise RuntimeError(str(e))
    if not main["ops"]:
        rec.skip("no operation")
        return
    rec.event("polluters", len(polluters))
    n = len(main["ops"])
    picks = r.sample(range(n), min(4, n))
    ref = [child.fork(alone, main["source"], main["ops"][k]) for k in picks]
    runs = []
    for h in range(4):
        order = list(range(n))
        if h:
            r.shuffle(order)
        before = [] if h == 0 else polluters if h in (1, 3) else []
        mixed = polluters if h >= 2 else []
        variant = main["source"] if h < 2 else variants(r, main)
        if variant != main["source"]:
            rec.event("reordered")
        runs.append((h, order, before, mixed, variant, child.fork(history, main, order, before, mixed, variant, h == 3)))
        rec.event("histories")
    want = {}
    for k, hnd in zip(picks, ref):
        want[k] = ("alone in a fresh process", child.join(hnd))
        rec.event("alone")
    if i < 2:
        rec.sample(main["source"] + "\n".join(main["ops"]))
    rec.event("direct_unions", main["kinds"].count("union"))
    for h, order, before, mixed, variant, hnd in runs:
        for k, got in child.join(hnd):
            rec.evaluate((main["source"], h, main["ops"][k]))
            if k not in want:
                want[k] = ("in order", got)
            elif want[k][1] != got:
                rec.violation(f"{main['ops'][k][:300]} gives {got[:300]} in history {h}, {want[k][1][:300]} {want[k][0]}",
                              script(main, order, before, mixed, variant, h, k))


def script(main, order, before, mixed, variant, h, k):
    """A program that shows the operation alone and in the history."""
    return (f"import sys; sys.path.insert(0, '/verif')\nfrom checks.p16_history import alone, history\nfrom lib import child\n"
            f"main = {main!r}\nprint('alone  :', child.run(alone, main['source'], main['ops'][{k}]))\n"
            f"res = child.run(history, main, {order!r}, {before!r}, {mixed!r}, {variant!r}, {h == 3})\n"
            f"print('history:', [x for q, x in res if q == {k}])\n")
