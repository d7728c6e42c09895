"""Random programs (class declarations) and values."""
from __future__ import annotations

import random

from .spec import (AnyT, Alias, Bare, Bool, Cls, ClsT, CounterT, DateT, DefaultDictT, DequeT, DictT, EnumT,
                   Fld, Float, FrozenSetT, Int, ListT, Lit, MISSING, NewT, NoneT, OptT, PrimSub, Program, SetT,
                   Str, StrSer, TupleT, UnionT, VarTupleT, lit, flat_cls)

CASES = ["camelcase", "capitalcase", "constcase", "kebabcase", "lowercase", "pascalcase", "sentencecase",
         "snakecase", "titlecase", "uppercase", "upperkebabcase", "alphanumcase"]

FIELD_NAMES = ["a", "b", "c", "d", "e", "f", "x", "y", "value", "int_field", "str_field", "foo_bar", "items",
               "camelCase", "x1", "n_2", "name", "kind", "size", "long_field_name", "_hidden", "is_ok", "Data",
               "v", "k", "key", "id", "type_", "opt", "children"]
HOSTILE_FIELD_NAMES = ["data", "cls", "obj", "res", "subres", "reuse_instances", "convert_sets", "skip_none", "typing",
                       "copy", "maybe_generic", "variable_type_args", "deserialize_numbers", "serde_scope", "funcs",
                       "SerdeError", "UserError", "fake_dict", "fake_key", "union_args", "errors", "t", "T", "int", "str",
                       "list", "dict", "set", "tuple", "isinstance", "repr", "type", "len", "e", "f", "v", "k", "self_",
                       "is_dataclass", "coerce_object", "collections", "known_fields", "unknown_fields", "numpy",
                       "from_obj", "to_obj", "enum_value", "Literal", "class_name", "__x", "flatten_extra_",
                       "True_", "None_", "field", "fields", "tag", "content", "json", "items", "keys", "get", "values"]
WIRE_NAMES = ["A", "b-c", "x.y", "with space", "naïve", "日本", "1st", "class", "", "$ref", "@id", "a_b", "A-B", "None",
              "#", "%s", "{x}", "tab\t", "type", "key:value", "true", "0"]
NASTY_WIRE_NAMES = WIRE_NAMES + ["q\"uote", "it's", "back\\slash", "\\n", "new\nline", "{{x}}", "{% y %}", "\\", "\"", "'''",
                                 "\"\"\"", "\\x41", "\u2028", "a\"]", "\r"]
CLASS_NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Foo", "Bar", "Baz", "Item", "Node",
               "Leaf", "Wrap", "Point", "User", "Config", "Outer", "Inner", "Payload"]
TAGS = ["__tag", "@tag", "t-y", "$type", "t y", "TAG!", "q\"t"]


class Gen:
    """Value generation settings."""

    def __init__(self, r, m, **kw):
        self.r, self.m = r, m
        self.nasty_floats = kw.get("nasty_floats", False)
        self.big = kw.get("big", False)
        self.allow_none_in_any = kw.get("allow_none_in_any", True)
        self.p_default = kw.get("p_default", 0.25)
        self.maxsize = kw.get("maxsize", 3)
        self.depth = 0
        self.count = 0
        self.maxdepth = kw.get("maxdepth", 6)

    def enough(self):
        """Time for objects that refer to no others, where classes are recursive."""
        return self.depth > self.maxdepth or self.count > 250

    def size(self):
        self.count += 1
        if self.depth > self.maxdepth or self.count > 250:
            return 0
        if self.count > 80:
            return self.r.randint(0, 1)
        return self.r.randint(0, self.maxsize)


class PG:
    """Program generator.  Flags switch language features on."""

    DEFAULT = dict(
        unions=True, classes=True, any=True, bare=True, abstract=True, enums=True, literals=True, newtypes=True,
        primsubs=True, strser=True, dates=True, sets=True, none=True, alias695=True, defaultdict=True, counter=True,
        tuple_keys=False, keyable_only=False, tagged_cls_unions=True, untagged=False, tuple_unions=True,
        rename=0.15, rename_all=0.2, defaults=0.35, alias=0.0, kw_only=0.1, frozen=0.1, inherit=0.12, override=0.25, plain=0.12,
        check=("strict", "strict", "strict", "disabled", "coerce"), taggings=("external", "internal", "adjacent"),
        skip=0.0, skip_if=0.0, flatten=0.0, transparent=0.08, nasty_names=False, hostile_fields=False, bool_keys=True,
        reuse_default=0.1, sets_default=0.1, future=0.1, depth=3, max_fields=5, ncls=(1, 3), coerce_ok=True,
        both=0.1, slots=0.03, deny=0.0, prim_only=False, class_skip=0.0, metadata=0.1, explicit_dc=0.1,
        cls_in_any=False, nested_enum=True, class_names=None,
    )

    def __init__(self, r, **flags):
        self.r = r
        self.f = dict(self.DEFAULT)
        unknown = set(flags) - set(self.f)
        assert not unknown, unknown
        self.f.update(flags)
        self.decls = []
        self.classes = []
        self.names = list(self.f["class_names"] or CLASS_NAMES)
        r.shuffle(self.names)
        self.enums, self.prims, self.news, self.aliases = [], [], [], []

    def p(self, x):
        return self.r.random() < (x if not isinstance(x, bool) else (1.0 if x else 0.0))

    def name(self):
        return self.names.pop() if self.names else f"C{len(self.decls)}"

    # -- scalars ----------------------------------------------------------------------------
    def enum(self):
        r = self.r
        if self.enums and r.random() < 0.4:
            return r.choice(self.enums)
        base = r.choice(["_e.Enum"] * 4 + ["_e.IntEnum", "_e.StrEnum", "str, _e.Enum", "_e.IntFlag"])
        if base == "_e.Enum":
            k = r.randint(0, 5)
            if k == 0:
                vals = r.sample(["a", "b", "A", "x y", "", "q'uo\"te", "1"], 3)
            elif k == 1:
                vals = r.sample([1, 2, 3, 0, -1, 10], 3)
            elif k == 2:
                vals = [1, "1", "one"]
            elif k == 3:
                vals = [1.5, 2.5, -0.25]
            elif k == 4:
                vals = [(1, "a"), (2, "b"), (1, "b")]
            else:
                plain = [e for e in self.enums if e.base == "_e.Enum" and not e.nested and e.kind in ("str", "int")]
                if self.f["nested_enum"] and plain:
                    inner = plain[0]
                    e = EnumT(self.name(), base, [(n, n) for n, _ in inner.members], nested=inner)
                    e.kind = inner.kind
                    e.keyable = False
                    return e if False else inner  # nested enums do not deserialize; serialization only
                vals = ["v1", "v2"]
        elif base == "_e.IntEnum":
            vals = r.sample([0, 1, 2, 3, -1, 10, 100], 3)
        elif base == "_e.IntFlag":
            vals = [1, 2, 4]
        else:
            vals = r.sample(["s", "t", "S", "u v", "é"], 3)
        names = r.sample(["A", "B", "C", "RED", "name_", "x", "_1", "Foo"], len(vals))
        names = [n if n != "_1" else "m1" for n in names]
        e = EnumT(self.name() + "E", base, list(zip(names, vals)))
        self.enums.append(e)
        self.decls.append(e)
        return e

    def literal(self):
        r = self.r
        k = r.randint(0, 4)
        if k == 0:
            return Lit(r.sample(["a", "b", "c", "r", "w", "r+", "w+"], 3))
        if k == 1:
            return Lit(r.sample([1, 2, 3, -1, 0], 2))
        if k == 2:
            return Lit([True]) if r.random() < 0.3 else Lit(["on", "off"])
        if k == 3:
            return Lit(r.choice([["a-b", "a b"], ["a_b", "c"], ["a-b", "c"], ["x.y"], ["", "_"], ["it's", 'say "hi"', "back\\"]]))
        return Lit(["one", 2])

    def scalar(self, keyable=False, hashable=False):
        r, f = self.r, self.f
        opts = [(Int, 5), (Str, 5), (Float, 3), (Bool, 3)]
        if f["prim_only"]:
            return r.choice([Int, Str, Float, Bool])() if not keyable else r.choice([Int, Str])()
        if keyable:
            opts = [(Int, 3), (Str, 5), (Float, 1)] + ([(Bool, 0.6)] if f["bool_keys"] and not f["keyable_only"] else [])
            if f["enums"]:
                opts.append((self.key_enum, 2))
            if f["strser"] and not f["keyable_only"]:
                opts.append((lambda: StrSer(r.choice(list(StrSer.TYPES))), 2))
            if f["dates"] and not f["keyable_only"]:
                opts.append((lambda: DateT(r.choice(list(DateT.PY))), 1))
        else:
            if f["strser"]:
                opts.append((lambda: StrSer(r.choice(list(StrSer.TYPES))), 3))
            if f["dates"]:
                opts.append((lambda: DateT(r.choice(list(DateT.PY))), 2))
            if f["enums"]:
                opts.append((self.enum, 3))
            if f["literals"]:
                opts.append((self.literal, 1.5))
            if f["newtypes"]:
                opts.append((self.newtype, 0.8))
            if f["primsubs"]:
                opts.append((self.primsub, 0.8))
            if f["none"] and not hashable:
                opts.append((NoneT, 0.3))
        tot = sum(w for _, w in opts)
        x = r.random() * tot
        for o, w in opts:
            x -= w
            if x <= 0:
                return o()
        return Int()

    def key_enum(self):
        for _ in range(8):
            e = self.enum()
            if e.keyable and e.base != "_e.Enum" and e.base != "_e.IntFlag":
                return e
            if e.kind == "str":
                return e
        return Str()

    def newtype(self):
        r = self.r
        if self.news and r.random() < 0.5:
            return r.choice(self.news)
        n = NewT(self.name() + "N", r.choice([Int, Str, Bool, Float]))
        self.news.append(n)
        self.decls.append(n)
        return n

    def primsub(self):
        r = self.r
        if self.prims and r.random() < 0.5:
            return r.choice(self.prims)
        n = PrimSub(self.name() + "S", r.choice([Int, Str, Float]))
        self.prims.append(n)
        self.decls.append(n)
        return n

    # -- compound ---------------------------------------------------------------------------
    def ty(self, depth=None, noopt=False):
        r, f = self.r, self.f
        d = f["depth"] if depth is None else depth
        if d <= 0 or r.random() < 0.35:
            if f["classes"] and self.classes and r.random() < 0.3:
                return ClsT(r.choice(self.classes))
            return self.scalar()
        opts = [("list", 4), ("dict", 3), ("tuple", 2), ("vartuple", 1.5), ("opt", 0 if noopt else 4), ("deque", 1)]
        if f["sets"]:
            opts += [("set", 2), ("fset", 0.8)]
        if f["unions"]:
            opts.append(("union", 3))
        if f["classes"] and self.classes:
            opts.append(("cls", 5))
        if f["any"]:
            opts.append(("any", 0.8))
        if f["bare"]:
            opts.append(("bare", 0.7))
        if f["defaultdict"]:
            opts.append(("ddict", 0.8))
        if f["counter"]:
            opts.append(("counter", 0.6))
        if f["alias695"]:
            opts.append(("alias", 0.5))
        tot = sum(w for _, w in opts)
        x = r.random() * tot
        for o, w in opts:
            x -= w
            if x <= 0:
                break
        d -= 1
        ab = f["abstract"]
        if o == "list":
            return ListT(self.ty(d), r.choice(ListT.FORMS) if ab and r.random() < 0.4 else "list[{}]")
        if o == "dict":
            return DictT(self.key(), self.ty(d), r.choice(DictT.FORMS) if ab and r.random() < 0.3 else "dict[{}, {}]")
        if o == "tuple":
            els = [self.ty(d) for _ in range(r.randint(1, 3))]
            return TupleT(els if not all(isinstance(e, NoneT) for e in els) else [Int()])
        if o == "vartuple":
            return VarTupleT(self.ty(d))
        if o == "opt":
            el = self.ty(d, noopt=True) if not noopt else self.scalar()
            return el if nullable(el) else OptT(el, r.choice(OptT.FORMS))
        if o == "deque":
            return DequeT(self.ty(d))
        if o == "set":
            return SetT(self.setel(), r.choice(SetT.FORMS) if ab and r.random() < 0.4 else "set[{}]")
        if o == "fset":
            return FrozenSetT(self.setel(), r.choice(FrozenSetT.FORMS))
        if o == "union":
            return self.union(d)
        if o == "cls":
            return ClsT(r.choice(self.classes))
        if o == "any":
            return AnyT()
        if o == "bare":
            return Bare(r.choice(["list", "dict", "tuple", "_c.deque", "_c.Counter"] + (["set"] if f["sets"] else [])))
        if o == "ddict":
            return DefaultDictT(self.key(), self.ddval(d))
        if o == "counter":
            if not f["keyable_only"] and not f["prim_only"] and r.random() < 0.5:
                return CounterT(self.key())
            return CounterT(r.choice([Str]) () if f["keyable_only"] else self.r.choice([Str, Int, Bool] if f["bool_keys"] else [Str, Int])())
        if o == "alias":
            el = self.ty(d, noopt=True)
            if nullable(el) or any(isinstance(t, UnionT) for t in el.walk()):
                return el
            a = Alias(self.name() + "A", el)
            self.decls.append(a)
            return a
        raise AssertionError(o)

    def ddval(self, d):
        r = self.r
        k = r.randint(0, 5)
        if k <= 1:
            return r.choice([Int, Str, Float])()
        if k == 2:
            return ListT(self.ty(d))
        if k == 3:
            return SetT(Str())
        if k == 4:
            return DictT(Str(), self.ty(d))
        return DequeT(Int())

    def key(self):
        if self.f["tuple_keys"] and self.r.random() < 0.1:
            return TupleT([Int(), Str()])
        if self.f["prim_only"]:
            return Str()
        return self.scalar(keyable=True)

    def setel(self):
        r = self.r
        k = r.random()
        if k < 0.75:
            return self.scalar(hashable=True)
        if k < 0.85:
            return TupleT([self.scalar(hashable=True) for _ in range(2)])
        if k < 0.95:
            el = self.scalar(hashable=True)
            return el if nullable(el) else OptT(el)
        return VarTupleT(Int())

    def union(self, d):
        """Members of pairwise different wire kinds, so that decoding is unambiguous."""
        r, f = self.r, self.f
        kinds = ["int", "float", "str", "bool", "list", "dict", "none", "cls"]
        r.shuffle(kinds)
        n = r.randint(2, 4)
        out = []
        for k in kinds:
            if len(out) >= n:
                break
            if k == "int":
                out.append(Int())
            elif k == "float":
                out.append(Float())
            elif k == "bool":
                out.append(Bool())
            elif k == "str":
                c = r.random()
                if c < 0.5:
                    out.append(Str())
                elif c < 0.75 and f["strser"]:
                    out.append(StrSer(r.choice(["_pl.Path", "_u.UUID"])))
                elif f["dates"]:
                    out.append(DateT("_dt.datetime"))
                else:
                    out.append(Str())
            elif k == "list":
                c = r.random()
                el = self.scalar() if c < 0.5 else self.ty(max(0, d - 1))
                out.append(r.choice([lambda: ListT(el), lambda: VarTupleT(el), lambda: TupleT([el, Int()]),
                                     lambda: ListT(el)])())
            elif k == "dict":
                if any(isinstance(e, ClsT) for e in out):
                    continue
                out.append(DictT(Str(), self.ty(max(0, d - 1))))
            elif k == "none":
                out.append(NoneT())
            elif k == "cls":
                if not (f["classes"] and f["tagged_cls_unions"]) or any(isinstance(e, DictT) for e in out):
                    continue
                usable = [c for c in self.classes if not c.transparent and not any(fl.flatten for fl in c.all_fields())]
                if not usable:
                    continue
                cs = r.sample(usable, min(len(usable), r.randint(1, 2)))
                out.extend(ClsT(c) for c in cs)
        if len(out) < 2:
            out = [Int(), Str()]
        r.shuffle(out)
        if len(out) == 2 and isinstance(out[1], NoneT):
            return out[0] if nullable(out[0]) else OptT(out[0])
        form = "pipe" if r.random() < 0.3 and not any(isinstance(e, ClsT) and e.quoted for e in out) else "union"
        return UnionT(out, form)

    # -- classes ----------------------------------------------------------------------------
    no_names = ()

    def field_names(self, n):
        pool = list(FIELD_NAMES)
        if self.f["hostile_fields"]:
            pool = HOSTILE_FIELD_NAMES + pool[:5]
        pool = [x for x in dict.fromkeys(pool) if x not in self.no_names]
        self.r.shuffle(pool)
        return pool[:n]

    def cls(self, fields=None, **kw):
        r, f = self.r, self.f
        opts = {}
        if self.p(f["plain"]):
            opts["decorator"] = "plain"
        elif self.p(f["both"]):
            opts["decorator"] = "both"
        deco = opts.get("decorator", "serde")
        if deco != "plain":
            opts["check"] = r.choice(f["check"])
            if self.p(f["rename_all"]):
                opts["rename_all"] = r.choice(CASES)
            t = r.choice(f["taggings"])
            if t == "internal":
                opts["tagging"] = ("internal", r.choice(TAGS))
            elif t == "adjacent":
                a, b = r.sample(TAGS, 2)
                opts["tagging"] = ("adjacent", a, b)
            elif t == "untagged":
                opts["tagging"] = ("untagged",)
            elif r.random() < 0.3:
                opts["tagging"] = ("external",)
            if self.p(f["reuse_default"]):
                opts["reuse"] = r.choice([True, False])
            if self.p(f["sets_default"]):
                opts["sets"] = r.choice([True, False])
            if self.p(f["deny"]):
                opts["deny"] = True
            if self.p(f["class_skip"]):
                opts["c_skip_none"] = r.choice([True, False])
            if self.p(f["class_skip"]):
                opts["c_skip_default"] = r.choice([True, False])
        if self.p(f["frozen"]):
            opts["frozen"] = True
        if self.p(f["kw_only"]):
            opts["kw_only"] = True
        if self.p(f["explicit_dc"]):
            opts["explicit_dc"] = True
        bases = []
        if fields is None and self.p(f["inherit"]):
            cands = [c for c in self.classes if not c.transparent and not c.slots and not c.tvars]
            if cands:
                b = r.choice(cands)
                bases = [b]
                opts["frozen"] = b.frozen
                opts["kw_only"] = True if any(x.has_default() for x in b.all_fields()) else opts.get("kw_only", False)
        opts.update(kw)
        transparent = fields is None and not bases and deco != "plain" and self.p(f["transparent"])
        name = kw.pop("name", None) or self.name()
        opts.pop("name", None)
        if transparent:
            opts["transparent"] = True
            opts.pop("rename_all", None)
            opts.pop("deny", None)
        c = Cls(name, [], bases=bases, **opts)
        if fields is None:
            n = 1 if transparent else r.choice([0] + list(range(1, f["max_fields"] + 1)) * 3)
            taken = {x.name for x in c.all_fields()}
            fields = []
            for nm in self.field_names(n + 2):
                if len(fields) >= n or nm in taken:
                    continue
                fields.append(Fld(nm, self.ty()))
            for x in fields:
                self.decorate(c, x, transparent)
            if bases and not c.kw_only and self.p(f["override"]):
                old = [x for x in bases[0].all_fields() if not (x.has_default() or x.classvar or x.kw_only or x.flatten)]
                if old:
                    fields.append(Fld(r.choice(old).name, self.ty()))
            # defaults must come last unless keyword-only
            if not c.kw_only:
                fields.sort(key=lambda x: x.has_default())
        c.fields = fields
        if bases and not fields and c.check != "strict":
            c.explicit_dc = True    # else it has the constructor of the base class, which may check
        self.fix_names(c)
        self.classes.append(c)
        self.decls.append(c)
        return c

    def decorate(self, c, x, transparent):
        r, f = self.r, self.f
        if transparent:
            return
        if self.p(f["defaults"]):
            self.add_default(x)
        if c.decorator != "plain":
            if self.p(f["rename"]):
                x.rename = r.choice(NASTY_WIRE_NAMES if f["nasty_names"] else WIRE_NAMES)
            if self.p(f["alias"]):
                x.alias = r.sample(["al1", "al2", "x-1", "Ali", "b", "al 3"], r.randint(1, 2))
            if x.rename is not None or x.alias:
                x.via_metadata = self.p(f["metadata"])

    def add_default(self, x):
        """A default as source text, so that every evaluation gives a fresh value."""
        r, t = self.r, x.ty
        if isinstance(t, OptT) and r.random() < 0.3 and isinstance(t.el, (Int, Str, Float, Bool)):
            x.default = t.el.gen(Gen(r, {}))
        elif isinstance(t, OptT) and r.random() < 0.7:
            x.default = None
        elif isinstance(t, (Int, Str, Float, Bool)):
            x.default = t.gen(Gen(r, {}))
        elif isinstance(t, StrSer):
            x.default_src = f"{t.name}({r.choice(StrSer.TYPES[t.name])!r})"
        elif isinstance(t, EnumT):
            x.default_src = f"{t.name}[{r.choice(t.members)[0]!r}]"
        elif isinstance(t, Lit):
            x.default = r.choice(t.values)
        elif isinstance(t, ListT):
            x.factory = "list"
        elif isinstance(t, SetT) and not isinstance(t, FrozenSetT):
            x.factory = "set"
        elif isinstance(t, FrozenSetT):
            x.default_src = "frozenset()"
        elif isinstance(t, DictT) and not isinstance(t, DefaultDictT):
            x.factory = "dict"
        elif isinstance(t, VarTupleT):
            x.default = ()
        elif isinstance(t, DequeT):
            x.factory = "_c.deque"
        elif isinstance(t, ClsT) and all(y.has_default() or y.classvar for y in t.cls.all_fields()):
            x.factory = t.cls.name

    def fix_names(self, c):
        """Drop renamings that would make two keys collide or produce an empty/odd converted name."""
        used = set()
        for fl in c.all_fields():
            if fl.classvar:
                continue
            if fl.flatten:
                continue
            w = c.wire_name(fl)
            keys = {w} | set(fl.alias or [])
            if keys & used:
                fl.rename = None
                fl.alias = None
                w = c.wire_name(fl)
                if w in used:
                    c.rename_all = None
                    return self.fix_all(c)
                keys = {w}
            used |= keys

    def fix_all(self, c):
        names = {fl.name for fl in c.all_fields()}
        seen = set()
        for fl in c.all_fields():
            if fl.rename is not None and (fl.rename in names or fl.rename in seen):
                fl.rename = None
            if fl.alias:
                fl.alias = None
            seen.add(c.wire_name(fl))

    def program(self):
        r, f = self.r, self.f
        lo, hi = f["ncls"]
        n = r.randint(lo, hi)
        for _ in range(n):
            self.cls()
        future = self.p(f["future"])
        return Program(self.decls, future=future)


def nullable(t):
    """None is a value, or the wire form of a value, of the type."""
    if isinstance(t, (OptT, NoneT, AnyT)):
        return True
    if isinstance(t, UnionT):
        return any(nullable(e) for e in t.els)
    if isinstance(t, Alias):
        return nullable(t.el)
    if isinstance(t, ClsT):
        return t.cls.transparent and nullable(t.cls.transparent_field().ty)
    return False


def related(a, b):
    def anc(c):
        out = {id(c)}
        for x in c.bases:
            out |= anc(getattr(x, "cls", x))
        return out
    return id(a) in anc(b) or id(b) in anc(a)


def rsample_names(r):
    """Distinct field names for a tree of classes."""
    out = [f"{a}{b}" for a in ("a", "foo_bar", "value", "xCase", "n", "opt_", "list_of", "key", "inner") for b in range(1, 7)]
    r.shuffle(out)
    return out
