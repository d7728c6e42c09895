"""P05: every field is written under one key and read from that key, then its aliases, and from nowhere else."""
import casefy
import serde

from lib.gen import CASES, Gen, NASTY_WIRE_NAMES, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.runner import Skip
from lib.spec import ClsT, ModelError, Opts, Unknown, lit, same

PROP = "P05"
BUDGET = {"quick": 4000, "thorough": 80000}
CHUNK = 50
RULE = "distinct (program, value or input) whose keys were compared or whose decoding was compared"
MIN = {"evaluations": 17000, "distinct": 16000, "accepts": 13000, "rejects": 3400, "alias_read": 8800, "decoys": 12000}


def case(r, rec, i, cfg):
    pg = PG(r, depth=r.choice([1, 1, 2, 3]), rename=0.35, alias=0.45, rename_all=0.6, nasty_names=True, max_fields=6,
            inherit=0.25, defaults=0.4, plain=0.05)
    prog = pg.program()
    with Case(rec, prog) as c:
        if i < 2:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        for cl in cls_nodes(prog)[::-1][:2]:
            if cl.transparent:
                continue
            t = ClsT(cl)
            v, v2 = c.value(t, g), c.value(t, g)
            c.lines = [f"v = {lit(v)}"]
            o = Opts(reuse=False, sets=r.random() < 0.5)
            try:
                w, w2 = t.ser(v, o), t.ser(v2, o)
            except (ModelError, Unknown):
                rec.skip("form not determined")
                continue
            c.must(expect(t.ser, v, o), call(serde.to_dict, v, reuse_instances=False, convert_sets=o.sets), "to_dict",
                   f"print(to_dict(v, reuse_instances=False, convert_sets={o.sets}))", order=True)
            for _ in range(4):
                read(c, rec, r, cl, t, w, w2)


def read(c, rec, r, cl, t, w, w2):
    src = {}
    fields = cl.de_fields()
    claimed = {k for f in fields for k in cl.de_keys(f)}
    used = []
    for f in fields:
        own = cl.wire_name(f)
        keys = [own] if not f.alias or r.random() < 0.35 else r.sample(f.alias, r.randint(1, len(f.alias)))
        if f.alias and r.random() < 0.3:
            keys = list(dict.fromkeys(keys + [own] + r.sample(f.alias, 1)))
            r.shuffle(keys)
        if r.random() < 0.12:
            keys = []
        for n, k in enumerate(keys):
            src[k] = (w if (n + (r.random() < 0.5)) % 2 == 0 else w2).get(own, w.get(own))
        if keys and keys[0] != own:
            rec.event("alias_read")
        # names the field must not be read from
        for k in {f.name, casefy.camelcase(f.name), casefy.pascalcase(f.name), f.name.upper(), own + " ", own.lower(), f.name + "_"}:
            if k not in claimed and r.random() < 0.35:
                src[k] = r.choice([w2.get(own, 1), "decoy", None])
                used.append(k)
    items = list(src.items())
    r.shuffle(items)
    data = dict(items)
    if used:
        rec.event("decoys")
    typ = c.ns[cl.name]
    c.must(expect(t.de, data, Opts(reuse=False)), call(serde.from_dict, typ, data, reuse_instances=False),
           "from_dict", f"print(from_dict({cl.name}, {lit(data)}, reuse_instances=False))")
