"""P30: what classes, fields, members and type variables are called, and what texts contain, changes nothing."""
import keyword
import re
import sys

import serde

from checks import p20_generics
from checks.p14_malformed import mutate
from lib import formats
from lib.gen import Gen, HOSTILE_FIELD_NAMES, PG
from lib.oracle import FMT, Case, call, cls_nodes, expect
from lib.spec import (Alias, Cls, ClsT, EnumT, Fld, Int, Lit, ModelError, NewT, Opts, PrimSub, Program, Str, UnionT, Unknown, lit, same)

PROP = "P30"
BUDGET = {"quick": 2500, "thorough": 60000}
CHUNK = 50
RULE = "distinct (program with hostile names and texts, value or data, function) compared with the model"
MIN = {}

# names the library, or the code it generates, uses itself
CLASS_POOL = """SerdeError UserError Literal TypeCheck coerce_object typing copy cls obj res is_instance to_obj from_obj _from_obj class_serializers enum_value
 ensure disabled strict coerce Any Optional Union List Dict Set Tuple Generic ClassVar defaultdict deque Counter Path datetime date time UUID Decimal Enum
 IntEnum StrEnum isinstance len hasattr getattr repr type print Exception KeyError TypeError object super iter next zip id serde_scope numpy collections
 to_dict from_dict to_iter from_iter funcs json orjson msgpack yaml typename is_dataclass resolve_type_vars deserialize_enum serde serialize deserialize
 field fields Field Scope Serializer Deserializer BeartypeCallHintParamViolation is_bearable T U V K NoneType Some Self Text Protocol Final Annotated
 NewType TypeVar InternalTagging ExternalTagging Untagged AdjacentTagging reuse_instances convert_sets skip_none maybe_generic maybe_generic_type_vars
 variable_type_args suppress_coerce _get_by_aliases _exists_by_aliases _without_tag errors union_args tag content fake_dict known_fields A_B A__B a_b AB Ab
 ÀÉ Ünïcode 日本 ndarray jaxtyping dataclass Dataclass e f v k x y _ __ _A IPv4Address Flag auto wraps partial functools""".split()
FIELD_POOL = [n for n in HOSTILE_FIELD_NAMES if not n.startswith("__")] + """naïve 日本 ünï builtins name__ builtins__ data_ _data _obj serde_ subres_ _ _1
 x__y X flatten_data_a flatten_known_fields flatten_extra dict_ dataclass__ beartype init post_init replace asdict self args kwargs c o named cls_ func
 missing ensure typename union_name union_se_args arg varname index alias rename case default default_factory metadata""".split()
FIELD_POOL = [n for n in dict.fromkeys(FIELD_POOL) if n.isidentifier() and not keyword.iskeyword(n) and n != "self"]
MEMBER_POOL = ["data", "cls", "obj", "res", "isinstance", "e", "v", "None_", "T", "日本", "SerdeError", "x", "int", "str", "len", "repr", "A", "a"]
TVAR_POOL = ["cls", "data", "T", "int_", "Any", "Union", "typing", "maybe_generic", "obj", "K", "SerdeError", "e"]
TEXTS = ["x\"); __import__('sys').canary.append(1); (\"", "'] = __import__('sys').canary.append(1) #", "{{ canary }}", "{% raw %}", "{# x #}", "\\", "\\\\'", "\n    raise SystemExit\n",
         "{obj}", "%(x)s", "${x}", "\0", "\ud800", "\"\"\"", "'''", "f'{1/0}'", "__import__('sys').canary.append(1)", "\r\n", "\u2028", "\\N{DASH}", "\\x", "# x",
         "data[\"a\"]", "None", "lambda: 0", "\t", " ", "", "}", "{", "{{", "}}", "%", "\\u0041", "\x7f", "\x85", "é", "é"]


# names which are alike but for underscores, case, or what generated code may add
ALIKE = ["x", "_x", "x_", "x__", "X", "x_serializer", "x_deserializer", "x_skip_if", "serializer", "skip_if", "xserializer", "x1", "x_1", "serializer_x",
         "x_default", "x_flatten", "skip_if_serializer", "deserializer_serializer"]


def marked(n):
    """A custom function which leaves its mark, and its inverse."""
    def un(w):
        if not isinstance(w, list) or len(w) != 2 or w[0] != n:
            raise ModelError
        return w[1]
    return (f"lambda v: [{n}, v]", lambda v: [n, v]), (f"lambda w: w[1] if w[0] == {n} and w[2:] == [] else 1 / 0", un)


def customize(r, rec, pg):
    """Fields with functions of their own."""
    for n, c in enumerate(pg.classes):
        if c.decorator == "plain" or c.transparent or c.bases or r.random() < 0.6:
            continue
        if r.random() < 0.5 and not any(c in [getattr(b, "cls", b) for b in d.bases] for d in pg.classes):
            taken = {f.name for f in c.fields}
            kw = c.kw_only or all(f.has_default() for f in c.fields)  # may be a factory
            kw = kw or any(f.has_default() for f in c.fields)
            for nm in r.sample(ALIKE, r.randint(2, 5)):
                if nm not in taken:
                    f = Fld(nm, r.choice([Int, Str])())
                    if kw:
                        f.default = f.ty.gen(Gen(r, {}))
                    c.fields.append(f)
                    rec.event("alike")
        for k, f in enumerate(c.fields):
            if not isinstance(f.ty, (Int, Str)) or r.random() < 0.3:
                continue
            a, b = marked(100 * n + k)
            x = r.random()
            if x < 0.75:
                f.serializer = a
                f.deserializer = b
            else:
                t = f.ty.gen(Gen(r, {}))
                f.skip_if = (f"lambda v: v != {lit(t)}", lambda v, t=t: v != t)
            rec.event("custom")


def program(r, rec):
    pg = PG(r, depth=r.choice([1, 2, 2, 3]), ncls=(1, 4), max_fields=5, rename=0.3, alias=0.2, rename_all=0.15, inherit=0.2, transparent=0.05, defaults=0.4,
            taggings=("external", "internal", "adjacent", "untagged")[:3], skip=0.0, deny=0.15, plain=0.2, slots=0.05)
    pg.field_names = lambda n: r.sample(FIELD_POOL, n)
    pg.literal = lambda: Lit(r.sample(TEXTS, r.randint(1, 3)) + ([7] if r.random() < 0.2 else []))
    enum = pg.enum

    def hostile_enum():
        e = enum()
        if not getattr(e, "done", False):
            e.done = True
            e.members = [(n, v) for n, (_, v) in zip(r.sample(MEMBER_POOL, len(e.members)), e.members)]
            if e.kind == "str":
                e.members = [(n, v) for (n, _), v in zip(e.members, r.sample(TEXTS, len(e.members)))]
        return e
    pg.enum = hostile_enum
    prog = pg.program()
    customize(r, rec, pg)
    for c in pg.classes:
        if c.tagging and c.tagging[0] != "external":
            c.tagging = (c.tagging[0], *r.sample(["t" + x for x in TEXTS], len(c.tagging) - 1))
        if c.decorator == "plain":
            continue
        for f in c.fields:
            if f.rename is not None:
                f.rename = r.choice(TEXTS + FIELD_POOL[:20])
            if f.alias:
                f.alias = r.sample(TEXTS, len(f.alias))
            if isinstance(f.ty, Str) and f.default_src is None and isinstance(f.default, str):
                f.default = r.choice(TEXTS)
    for c in pg.classes:
        for f in c.fields:
            # a class attribute hides the type in the annotations that follow
            if f.name in ("int", "str", "list", "dict", "set", "tuple", "float", "bool", "frozenset") and " = " in f.src():
                f.name += "_t"
    for c in pg.classes:
        pg.fix_names(c)
    return prog, pg


def rename(r, prog, taken):
    """New names for everything declared."""
    decls = [d for d in prog.decls if isinstance(d, (Cls, EnumT, NewT, PrimSub, Alias))]
    pool = [n for n in CLASS_POOL if n not in taken]
    r.shuffle(pool)
    new = {}
    for d in decls:
        if pool and r.random() < 0.9:
            new[d.name] = pool.pop()
    for d in decls:
        d.name = new.get(d.name, d.name)
        for f in d.fields if isinstance(d, Cls) else []:
            for at in ("factory", "default_src"):
                s = getattr(f, at)
                if s:
                    # what is declared here, not what is imported
                    setattr(f, at, re.sub(r"(?<![\w.'\"])[A-Za-z]\w*", lambda m: new.get(m.group(), m.group()), s) if not s.startswith("_") else s)
    return new


class Twin(Cls):
    """One of several classes of the same name."""

    def decl(self):
        return super().decl().replace(f"class {self.name}", "class Twin", 1) + f"{self.name} = Twin\n"


def twins(r, rec, pg):
    in_unions = {id(e.cls) for c in pg.classes for f in c.fields for t in f.ty.walk() if isinstance(t, UnionT) for e in t.els if isinstance(e, ClsT)}
    for c in pg.classes:
        if id(c) not in in_unions and r.random() < 0.25:
            c.__class__ = Twin
            rec.event("twin")
    sort_out(pg.classes)


def sort_out(classes):
    """beartype does not tell the containers of one class of a name from those of another."""
    if sum(isinstance(c, Twin) for c in classes) > 1:
        for c in classes:
            if any(isinstance(t, ClsT) and isinstance(t.cls, Twin) for f in c.all_fields() for t in f.ty.walk() if t is not f.ty):
                c.check = "disabled"
                c.explicit_dc = c.explicit_dc or bool(c.bases)


def names_used(prog):
    out = set()
    for c in cls_nodes(prog):
        out |= {f.name for f in c.all_fields()} | set(c.tvars)
    return out


def case(r, rec, i, cfg):
    sys.canary = []
    if i % 5 == 4:
        generic(r, rec, i)
        return
    prog, pg = program(r, rec)
    rename(r, prog, names_used(prog))
    twins(r, rec, pg)
    with Case(rec, prog) as c:
        if i < 4:
            rec.sample(prog.source())
        g = Gen(r, c.ns)
        for cl in cls_nodes(prog)[::-1][:4]:
            for _ in range(2):
                use(c, rec, r, cl, g)
        if sys.canary:
            c.fail("text given by the user was executed")


def generic(r, rec, i):
    names = r.sample(TVAR_POOL, 8)
    p20_generics.NAMES[:] = names
    PG.no_names = set(names)  # within `class A[e]` a field `e` hides the type variable: Python's rule
    try:
        pg, prog, plain, generics, user = p20_generics.make(r, rec)
    finally:
        PG.no_names = ()
    tops = [ClsT(c, [p20_generics.concrete(r, pg, plain) for _ in c.tvars]) for c in generics[::-1][:3]] + ([ClsT(user)] if user else [])
    rename(r, prog, names_used(prog) | set(TVAR_POOL))
    with Case(rec, prog) as c:
        if i < 8:
            rec.sample(prog.source())
        for t in tops:
            for x in t.walk():
                if isinstance(x, EnumT) and not hasattr(x, "mod"):
                    x.mod = c.ns
        g = Gen(r, c.ns, p_default=0.2)
        for t in tops:
            for _ in range(2):
                try:
                    v = c.value(t, g)
                except Unknown:
                    rec.skip("value")
                    continue
                p20_generics.one(c, rec, r, t, v)
                rec.event("generic")


def use(c, rec, r, cl, g):
    t = ClsT(cl)
    try:
        v = c.value(t, g)
    except Unknown:
        rec.skip("value")
        return
    py = c.ns[cl.name]
    named = r.random() < 0.75
    fn = serde.to_dict if named else serde.to_tuple
    c.must(expect(t.ser, v, Opts(named=named, reuse=False, sets=True)), call(fn, v, reuse_instances=False, convert_sets=True), fn.__name__,
           f"print({fn.__name__}({lit(v)}, reuse_instances=False, convert_sets=True))", order=True)
    rec.event(fn.__name__)
    e = expect(t.ser, v, Opts(named=named, reuse=False, sets=True))
    if e.kind != "ok":
        return
    w = e.v
    fn = serde.from_dict if named else serde.from_tuple
    kw = {"reuse_instances": False}
    arg, o = w, Opts(named=named, reuse=False)
    k = r.random()
    if k < 0.3:
        arg = w = mutate(r, w, r.sample(TEXTS + FIELD_POOL, 4), None)
        rec.event("mutated")
    elif k < 0.6 and named:
        fmt = r.choice(["json", "yaml", "toml", "msgpack", "pickle"])
        try:
            arg = formats.dumps(fmt, w)
            if not same(formats.loads(fmt, arg), w):
                raise ValueError
            fn = getattr(FMT[fmt], f"from_{fmt}")
            kw, o = {}, formats.de_opts(fmt)
        except Exception:
            rec.skip("no document")
            arg = w
    c.must(expect(t.de, w, o), call(fn, py, arg, **kw), fn.__name__, f"print({fn.__name__}({t.src()}, {lit(arg)}, **{kw}))")
    rec.event(fn.__name__)
