"""P14: arbitrary plain data gives an instance of the requested type or SerdeError, and leaves the class as it was."""

import serde

from checks import p07_skip, p08_flatten
from lib import formats
from lib.gen import Gen, PG
from lib.oracle import FMT, Case, call, cls_nodes
from lib.spec import ClsT, DictT, ListT, ModelError, OptT, Opts, Str, TupleT, Unknown, lit, rfloat, rint, rstr, same

PROP = "P14"
BUDGET = {"quick": 4500, "thorough": 100000}
CHUNK = 50
RULE = "distinct (program, malformed data) read"
MIN = {"evaluations": 45000, "distinct": 44000, "refused": 35000, "accepted": 9800, "after": 8400, "mutants": 32000, "wild": 17000}

HUGE = 10 ** 400


def wild(r, keys, depth=3):
    """Plain data of any shape, preferably with keys and values the classes know."""
    k = r.random()
    if depth <= 0 or k < 0.35:
        return r.choice([None, True, False, 0, 1, -1, 2**70, HUGE, 1.5, float("nan"), float("inf"), "", "a", "1", "nan", rstr(r), rint(r), rfloat(r),
                         r.choice(keys)])
    if k < 0.6:
        return [wild(r, keys, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    if k < 0.65:
        return tuple(wild(r, keys, depth - 1) for _ in range(r.choice([0, 1, 2, 3])))
    d = {}
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        key = r.choice(keys) if r.random() < 0.7 else r.choice([0, 1, True, None, 1.5, "", "x", (1, 2), rstr(r)])
        d[key] = wild(r, keys, depth - 1)
    return d


def mutate(r, w, keys, g):
    """Structural damage to valid data."""
    for _ in range(r.choice([1, 1, 2, 4])):
        w = hit(r, w, keys, g, 0)
    return w


def hit(r, w, keys, g, d):
    if isinstance(w, dict) and w and r.random() < (0.85 if d < 3 else 0.5):
        k = r.choice(list(w))
        m = r.random()
        out = dict(w)
        if m < 0.15:
            del out[k]
        elif m < 0.25:
            out[r.choice(keys)] = wild(r, keys, 1)
        elif m < 0.33:
            out[r.choice([str(k) + "x", 0, None, (k,), str(k).upper()])] = out.pop(k)
        elif m < 0.4:
            return list(w.items())
        elif m < 0.45:
            return list(w.values())
        else:
            out[k] = hit(r, w[k], keys, g, d + 1)
        return out
    if isinstance(w, (list, tuple)) and w and r.random() < 0.75:
        n = r.randrange(len(w))
        m = r.random()
        out = list(w)
        if m < 0.15:
            del out[n]
        elif m < 0.25:
            out.insert(n, wild(r, keys, 1))
        elif m < 0.3:
            return {q: x for q, x in enumerate(w)}
        else:
            out[n] = hit(r, out[n], keys, g, d + 1)
        return out
    m = r.random()
    if m < 0.2:
        return [w]
    if m < 0.3:
        return {r.choice(keys): w}
    if m < 0.45:
        return str(w)
    if m < 0.6:
        return None
    return wild(r, keys, 2)


def case(r, rec, i, cfg):
    pg = PG(r, depth=r.choice([1, 2, 3]), max_fields=4, ncls=(1, 3), alias=0.1, deny=0.1, tagged_cls_unions=True,
            taggings=("external", "internal", "adjacent", "untagged"), tuple_keys=True, nasty_names=r.random() < 0.2)
    k = r.random()
    if k < 0.12:
        prog = p08_flatten.make_unique(r, rec)[0]
    elif k < 0.24:
        prog = p07_skip.SkipPG(r, depth=2, defaults=0.5, class_skip=0.25, max_fields=4).program()
    else:
        prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns, p_default=0.2)
        keys = ["x", "type", "content", "a"]
        for d in cls_nodes(prog):
            keys += [d.name] + [k for f in d.all_fields() for k in (d.wire_name(f), f.name)]
        for cl in cls_nodes(prog)[::-1][:2]:
            one(c, rec, r, cl, g, keys)


def one(c, rec, r, cl, g, keys):
    t = ClsT(cl)
    tops = [(t, cl.name)]
    for w in (ListT(t), DictT(Str(), t), TupleT([t, t])) + ((OptT(t),) if not cl.transparent else ()):
        tops.append((w, w.src()))
    v = c.value(t, g)
    valid = []
    for named in (True, False):
        try:
            valid.append((named, t.ser(v, Opts(named=named, reuse=False, sets=True))))
        except (ModelError, Unknown):
            pass
    before = [(named, w, call(serde.from_dict if named else serde.from_tuple, cl.py, w)) for named, w in valid]
    for n in range(12):
        top, src = (t, cl.name) if r.random() < 0.75 else r.choice(tops)
        named = r.random() < 0.8
        base = [w for nm, w in valid if nm == named]
        if base and r.random() < 0.65:
            w = base[0]
            w = {"ClsT": lambda: w, "ListT": lambda: [w, w], "DictT": lambda: {"k": w}, "TupleT": lambda: [w, w], "OptT": lambda: w}[type(top).__name__]()
            w = mutate(r, w, keys, g)
            rec.event("mutants")
        else:
            w = wild(r, keys)
            rec.event("wild")
        typ = eval(src, c.ns)
        kind = r.random()
        if kind < 0.6:
            name = "from_dict" if named else "from_tuple"
            kw = {}
            if r.random() < 0.2:
                kw["reuse_instances"] = r.choice([True, False])
            ln = (f"d = {lit(w)}", f"print({name}({src}, d{''.join(f', {a}={b}' for a, b in kw.items())}))")
            out = call(getattr(serde, name), typ, w, **kw)
        else:
            fmt = r.choice(["json", "yaml", "toml", "msgpack", "msgpack_tuple", "pickle"])
            _, fr, kw = formats.names(fmt)
            try:
                doc = formats.dumps(fmt, w)
                formats.loads(fmt, doc)
            except Exception:
                rec.skip("the format cannot hold the data")
                continue
            ln = (f"print({fr}({src}, {lit(doc)}{''.join(f', {a}={b}' for a, b in kw.items())}))",)
            out = call(getattr(FMT[fmt.split('_')[0]], fr), typ, doc, **kw)
        c.evaluate((src, ln))
        judge(c, rec, cl, top, out, ln)
    for named, w, old in before:
        rec.event("after")
        now = call(serde.from_dict if named else serde.from_tuple, cl.py, w)
        same_out = now.kind == old.kind and (now.kind != "ok" or same(old.v, now.v))
        if not same_out:
            c.fail(f"after rejected inputs valid data gives {now!r}, before {old!r}", f"print({'from_dict' if named else 'from_tuple'}({cl.name}, {lit(w)}))")
        if old.kind != "ok" and old.kind != "serde":
            c.fail(f"valid data: {old!r}", f"print({'from_dict' if named else 'from_tuple'}({cl.name}, {lit(w)}))")


def judge(c, rec, cl, top, out, ln):
    if out.kind == "serde":
        rec.event("refused")
        return
    if out.kind != "ok":
        c.fail(f"malformed data {out!r}", *ln)
    rec.event("accepted")
    x = out.v
    py = cl.py
    good = {"ClsT": lambda: isinstance(x, py), "OptT": lambda: x is None or isinstance(x, py),
            "ListT": lambda: isinstance(x, list) and all(isinstance(e, py) for e in x),
            "TupleT": lambda: isinstance(x, tuple) and len(x) == 2 and all(isinstance(e, py) for e in x),
            "DictT": lambda: isinstance(x, dict) and all(isinstance(e, py) for e in x.values())}[type(top).__name__]()
    if not good:
        c.fail(f"malformed data {out!r}, which is not a {top.src()}", *ln)
