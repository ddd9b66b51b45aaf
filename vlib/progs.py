"""Seeded generator of class definitions ("programs") for the serialization checks.

Emits a header with the classes (input of the code generator under test), matching reflection descriptors for the
reference models (vh::Desc) and the list of types to check.
"""
import random


class T:
    """A C++ type and the traits needed to combine it."""

    def __init__(self, cpp, kind, less=False, hsh=False, nullable=False, copy=True, init=None, flt=False, struct=None):
        self.cpp, self.kind, self.less, self.hsh, self.nullable, self.copy, self.init, self.flt = cpp, kind, less, hsh, nullable, copy, init, flt
        self.struct = struct


def _scalars(mode):
    c = [
        T("bool", "bool", True, True, init=["true", "false"]),
        T("int", "int", True, True, init=["42", "-7"]),
        T("unsigned int", "int", True, True, init=["42u"]),
        T("std::int64_t", "int", True, True, init=["-5000000000"]),
        T("std::uint64_t", "int", True, True, init=["5000000000"]),
        T("std::uint8_t", "int", True, True, init=["200"]),
        T("float", "flt", True, False, init=["1.5f"], flt=True),
        T("double", "flt", True, False, init=["-2.25"], flt=True),
        T("std::string", "str", True, True, init=['"default"', '"x\\"y"']),
    ]
    if mode == "json":
        c += [T("std::int8_t", "int", True, True, init=["-3"]), T("std::int32_t", "int", True, True, init=["9"]), T("std::size_t", "int", True, True, init=["11"]),
              T("std::int16_t", "int", True, True, init=["-300"]), T("unsigned short", "int", True, True, init=["60000"]), T("char", "int", True, True, init=["'c'"]),
              T("long long", "int", True, True, init=["-5000000000"]), T("unsigned long long", "int", True, True, init=["5000000000"])]
    if mode == "bin":
        c += [T("char", "int", True, True, init=["'c'"]), T("std::int16_t", "int", True, True, init=["-300"]),
              T("std::uint16_t", "int", True, True, init=["60000"]), T("std::uint32_t", "int", True, True, init=["9"])]
    return c


ENUM_UNDERLYING = {
    "json": ["int", "unsigned int", "std::uint8_t", "std::int8_t", "std::int16_t", "std::uint16_t", "std::int64_t", "std::uint64_t", "char", "long long"],
    "bin": ["int", "unsigned int", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int64_t", "std::uint64_t", "char"],
    "both": ["int", "unsigned int", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int64_t", "std::uint64_t"],
}
SEQ = ["std::vector", "std::list", "std::deque"]
SETS = ["std::set", "std::multiset", "std::unordered_set", "std::unordered_multiset"]
MAPS = ["std::map", "std::unordered_map", "std::multimap", "std::unordered_multimap"]
PTRS = ["std::unique_ptr", "std::shared_ptr", "std::optional"]


class Struct:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns
        self.bases = []  # (Struct)
        self.members = []  # dicts: name, t, init, const, access, asof, until
        self.json = self.bin = True
        self.version = 0
        self.copy = True
        self.push_private = self.pull_private = False  # friend macros
        self.extra_decl = []  # raw declarations (ignored by the generator)
        self.hana = False
        self.markers = {}  # member index => version markers before it

    def mark(self, i, kind, n, asof, until):
        """Adds a version marker before the i-th member; returns what is effective from there on."""
        self.markers.setdefault(i, []).append((kind, n))
        if kind == "asof":
            return n, until if n <= until else 0
        return asof if n >= asof else 0, n

    @property
    def qual(self):
        return "::".join(self.ns + [self.name])

    def all_members(self):
        r = []
        for b in self.bases:
            r += b.all_members()
        return r + self.members


class Prog:
    def __init__(self, seed, mode, index=0, push_only=False, recursive=True, floats_in_sets=None, no_shared=False, names=None):
        self.r = random.Random(seed)
        self.mode, self.index = mode, index
        self.structs, self.enums, self.tops = [], [], []
        self.push_only = push_only
        self.open = None
        self.no_shared = no_shared
        self.floats_in_sets = mode == "json" if floats_in_sets is None else floats_in_sets
        self.scalars = _scalars(mode)
        self.counter = 0
        self.used_names = 0
        self.short_macros = False
        r = self.r
        for i, u in enumerate(r.sample(ENUM_UNDERLYING[mode], 4)):
            scoped = r.random() < .6
            self.enums.append((f"E{i}", u, scoped))
            self.scalars.append(T(f"{self.nsq(['en'])}E{i}", "enum", True, True, init=[f"static_cast<{self.nsq(['en'])}E{i}>(7)"]))

    def nsq(self, ns):
        return "::" + "::".join([f"u{self.index}"] + ns) + "::"

    # --- types -----------------------------------------------------------------------------------------------------
    def scalar(self, pred=lambda t: True):
        return self.r.choice([t for t in self.scalars if pred(t)])

    def key(self, hashed):
        """Key/element type of (unordered) associative containers."""
        ok = (lambda t: t.hsh) if hashed else (lambda t: t.less)
        return self.scalar(lambda t: ok(t) and (self.floats_in_sets or not t.flt))

    def lessable(self, depth=1):
        """Type usable as element of ordered sets."""
        r = self.r
        if depth <= 0 or r.random() < .5:
            return self.key(False)
        k = r.choice(["pair", "vector", "tuple", "opt", "list"] if self.mode == "json" else ["pair", "vector", "list"])
        if k == "pair":
            a, b = self.lessable(depth - 1), self.lessable(depth - 1)
            return T(f"std::pair<{a.cpp}, {b.cpp}>", "pair", True)
        if k == "tuple":
            a, b = self.lessable(depth - 1), self.lessable(depth - 1)
            return T(f"std::tuple<{a.cpp}, {b.cpp}>", "tuple", True)
        if k == "opt":
            a = self.key(False)
            return T(f"std::optional<{a.cpp}>", "opt", True, nullable=True)
        a = self.key(False) if depth < 2 else self.lessable(depth - 1)
        if a.cpp == "bool" and k == "vector":
            k = "list"
        return T(f"std::{k}<{a.cpp}>", "seq", True)

    def outers(self):
        o = SEQ + SETS + MAPS + ["std::pair"] + [p for p in PTRS if not (p == "std::shared_ptr" and self.no_shared)] + ["std::variant"]
        if self.mode == "json":
            o.append("std::tuple")
        return o

    def wrap(self, outer, inner):
        """Makes outer<inner>; returns None if not supported."""
        r = self.r
        if outer in SEQ:
            if outer == "std::vector" and inner.cpp == "bool":
                return None
            return T(f"{outer}<{inner.cpp}>", "seq", inner.less, copy=inner.copy)
        if outer in SETS:
            hashed = "unordered" in outer
            if not (inner.hsh if hashed else inner.less) or (inner.flt and not self.floats_in_sets):
                return None
            return T(f"{outer}<{inner.cpp}>", "set")
        if outer in MAPS:
            if self.mode == "bin":
                k = self.key("unordered" in outer) if r.random() < .7 or "unordered" in outer else self.lessable(1)
                k = k.cpp
            else:
                k = "std::string"
            return T(f"{outer}<{k}, {inner.cpp}>", "map", copy=inner.copy)
        if outer == "std::pair":
            o = self.scalar()
            a, b = (inner, o) if r.random() < .5 else (o, inner)
            return T(f"std::pair<{a.cpp}, {b.cpp}>", "pair", a.less and b.less and not (a.flt or b.flt), copy=inner.copy)
        if outer == "std::tuple":
            e = [inner] + [self.scalar() for _ in range(r.randrange(3))]
            r.shuffle(e)
            return T(f"std::tuple<{', '.join(x.cpp for x in e)}>", "tuple", all(x.less and not x.flt for x in e), copy=inner.copy)
        if outer in PTRS:
            if inner.nullable and self.mode != "bin":
                return None
            return T(f"{outer}<{inner.cpp}>", {"std::unique_ptr": "uptr", "std::shared_ptr": "sptr", "std::optional": "opt"}[outer],
                     nullable=True, copy=inner.copy and outer != "std::unique_ptr")
        if outer == "std::variant":
            alts = [inner] + [self.scalar() for _ in range(r.randrange(1, 3))]
            r.shuffle(alts)
            cpp = [a.cpp for a in alts]
            if r.random() < .4:
                cpp.insert(0 if r.random() < .6 else r.randrange(len(cpp) + 1), "std::monostate")
            return T(f"std::variant<{', '.join(cpp)}>", "var", copy=inner.copy)
        raise ValueError(outer)

    def rand_type(self, depth):
        r = self.r
        if depth <= 0 or r.random() < .15:
            return self.leaf()
        for _ in range(20):
            o = r.choice(self.outers())
            inner = self.lessable(1) if o in ("std::set", "std::multiset") else self.key(True) if o in SETS else self.rand_type(depth - 1)
            t = self.wrap(o, inner)
            if t:
                return t
        return self.leaf()

    def leaf(self):
        r = self.r
        st = [s for s in self.structs if self.usable(s)]
        if st and r.random() < .3:
            return self.struct_type(r.choice(st))
        return self.scalar()

    def usable(self, s):
        return s is not self.open and (s.json or self.mode == "bin") and (s.bin or self.mode == "json")

    def struct_type(self, s):
        return T("::" + s.qual, "struct", copy=s.copy, struct=s)

    # --- structs ---------------------------------------------------------------------------------------------------
    WORDS = ["index", "data", "value", "name", "record", "errors", "reflectable", "allocator", "deserializer", "serializer", "version", "customType",
             "member", "obj", "array", "type", "size", "id", "key", "previousRecord", "x", "items", "_under", "camelCase", "CAPS", "e1"]

    def member_name(self):
        self.used_names += 1
        r = self.r
        return (r.choice(self.WORDS) + str(self.used_names)) if r.random() < .5 else f"m{self.used_names}"

    def new_struct(self, ns=None, bases=(), name=None):
        r = self.r
        self.counter += 1
        if ns is None:
            ns = r.choice([[], ["inner"], ["a", "b"]])
        s = Struct(name or f"S{self.counter}", [f"u{self.index}"] + ns)
        s.bases = list(bases)
        s.copy = all(b.copy for b in s.bases)
        self.structs.append(s)
        self.open = s  # still being defined
        return s

    def add(self, s, t, init=True, name=None, const=False, access="public"):
        r = self.r
        i = None
        if t.init:
            i = r.choice(t.init) if (init and r.random() < .7) or const else "{}"
        else:
            i = "{}"
            if init and r.random() < .3 and t.copy:
                i = self.default_init(t)
        s.members.append(dict(name=name or self.member_name(), t=t, init=i, const=const, access=access, asof=0, until=0))
        s.copy = s.copy and t.copy
        return s.members[-1]

    def default_init(self, t):
        # a few non-empty defaults for containers of simple types
        for seq in SEQ + ["std::set", "std::multiset", "std::optional"]:
            for inner, vals in (("int", "7, 8"), ("std::string", '"dflt", "b"'), ("double", "1.5, 2.5")):
                if t.cpp == f"{seq}<{inner}>":
                    return f"{{ {vals.split(',')[0] if seq == 'std::optional' else vals} }}"
        return "{}"

    def pair_cover(self):
        """All supported (outer, inner kind) combinations."""
        r = self.r
        present = {t.kind for t in self.scalars}
        kinds = [k for k in ("bool", "int", "flt", "enum", "str") if k in present] + ["struct"] + self.outers()
        res = []
        for o in self.outers():
            for k in kinds:
                t = None
                for _ in range(30):
                    if k in ("bool", "int", "flt", "enum", "str"):
                        inner = self.scalar(lambda t: t.kind == k)
                    elif k == "struct":
                        st = [s for s in self.structs if self.usable(s)]
                        if not st:
                            break
                        inner = self.struct_type(r.choice(st))
                    else:
                        base = self.key(True) if k in SETS or o in SETS else self.leaf() if r.random() < .3 else self.scalar()
                        inner = self.wrap(k, base)
                    t = self.wrap(o, inner) if inner else None
                    if t:
                        break
                if t:
                    res.append(t)
        return res

    def populate(self, share, nshares, extra=6, depth=3, per_struct=6):
        """Fills the program with structs covering its share of the nesting pairs plus random deep types."""
        r = self.r
        s0 = self.new_struct(ns=[])
        for t in self.scalars:
            self.add(s0, t)
        s1 = self.new_struct()
        for _ in range(3):
            self.add(s1, self.rand_type(1))
        d = self.new_struct(bases=[s1])  # derived
        for _ in range(2):
            self.add(d, self.rand_type(1))
        self.open = None
        types = self.pair_cover()
        types = [t for i, t in enumerate(types) if i % nshares == share]
        types += [self.rand_type(depth) for _ in range(extra)]
        r.shuffle(types)
        while types:
            chunk, types = types[:per_struct], types[per_struct:]
            bases = []
            self.open = None
            if r.random() < .35:
                cand = [s for s in self.structs if self.usable(s) and len(s.all_members()) < 12]
                for b in r.sample(cand, min(len(cand), r.choice([1, 1, 2]))):
                    # no repeated base classes
                    if not any(set(self.closure(b)) & set(self.closure(x)) for x in bases):
                        bases.append(b)
            s = self.new_struct(bases=bases)
            for t in chunk:
                self.add(s, t)
        # containers followed by further values within the elements of another container
        ctx = self.new_struct(ns=[], name="Siblings")
        for k in self.outers()[share::nshares]:
            inner = None
            while not inner:
                inner = self.wrap(k, self.key(True) if k in SETS else self.scalar())
            tail = self.scalar()
            t = T(f"std::pair<{inner.cpp}, {tail.cpp}>", "pair", copy=inner.copy)
            seq = T(f"{r.choice(SEQ)}<{t.cpp}>", "seq", copy=t.copy)
            self.add(ctx, seq)
            if self.mode == "json":
                self.add(ctx, T(f"std::map<std::string, std::tuple<{inner.cpp}, {tail.cpp}>>", "map", copy=inner.copy))
        # many alternatives/elements
        alts = list(self.scalars) + [T(f"std::vector<{self.scalar(lambda t: t.cpp != 'bool').cpp}>", "seq") for _ in range(3)]
        r.shuffle(alts)
        self.add(ctx, T(f"std::variant<{', '.join(t.cpp for t in alts)}>", "var"))
        if self.mode == "bin" and share == 0:
            # index exceeding 7 bits
            wide = [r.choice(["int", "bool", "std::string", "double"]) for _ in range(135)]
            self.add(self.new_struct(ns=[], name="Wide"), T(f"std::variant<{', '.join(wide)}>", "var"))
            self.open = None
        if self.mode == "json":
            r.shuffle(alts)
            self.add(ctx, T(f"std::tuple<{', '.join(t.cpp for t in alts)}>", "tuple"))
        # classes without (own) members
        bare = self.new_struct(ns=[], name="Bare")
        heir = self.new_struct(ns=[], name="Heir", bases=[s1])
        self.open = None
        around = self.new_struct(ns=[], name="Around")
        for t in [self.struct_type(bare), self.scalar(), self.struct_type(heir), self.scalar(), T(f"std::optional<::{bare.qual}>", "opt"), T(f"std::pair<::{bare.qual}, {self.scalar().cpp}>", "pair"), self.scalar()]:
            self.add(around, t)
        if self.mode == "json":
            self.add(around, T(f"std::{r.choice(['vector', 'list', 'deque'])}<::{bare.qual}>", "seq"))
            self.add(around, self.scalar())
        self.add(self.new_struct(ns=[], name="Outermost", bases=[bare]), self.scalar())
        self.open = None
        # unusual number and names of members
        if share % 4 == 1:
            broad = self.new_struct(ns=["größe"], name="Bröad" + "x" * 100)
            few = [self.scalar() for _ in range(4)]
            for i in range(r.choice([64, 65, 70, 100])):
                self.add(broad, r.choice(few))
            self.add(broad, self.scalar(), name="äöü")
            self.add(broad, self.scalar(), name="名前")
            self.add(broad, self.scalar(), name="l" + "o" * 300 + "ng")
            self.open = None
        # recursive structure
        rec = self.new_struct(ns=[], name="Tree")
        self.add(rec, self.scalar(), name="value")
        self.add(rec, T("std::vector<::" + rec.qual + ">", "seq"), name="children")
        self.add(rec, T("std::unique_ptr<::" + rec.qual + ">", "uptr", copy=False), name="next")
        rec.copy = False
        if self.push_only:
            s = self.new_struct()
            self.add(s, T("const char *", "cstr", init=["nullptr"]))
            self.add(s, T("std::string_view", "sview", init=["{}"]))
            self.add(s, T("std::vector<std::string_view>", "seq"))
            self.add(s, T("std::map<std::string, const char *>", "map"))
            self.add(s, T("int", "int", init=["3"]), const=True)
        return self

    def closure(self, s):
        return [s.qual] + [q for b in s.bases for q in self.closure(b)]

    def uses(self, s):
        """Structs mentioned in members (directly or nested within other types)."""
        return [x for x in self.structs if x is not s and any(("::" + x.qual) in m["t"].cpp.replace(">", " ").replace(",", " ").replace("<", " ").split() for m in s.members)]

    def add_versions(self):
        """Adds versions and version markers to the structs (binary only)."""
        r = self.r
        sensitive = {}
        for s in self.structs:
            base_sensitive = any(sensitive[b] for b in s.bases)
            if r.random() < .55 and not base_sensitive:
                s.version = r.choice([1, 2, 3, 3, 4, 5, 5, 6, 9, 127, 128, 300, 70000, 2**31 - 1, 2**31, 2**32 - 1, 2**32 + 1, 2**40, 2**50])
            top = s.version or 6
            around = [1, 2, 3, top, max(1, top - 1), top + 1, r.randrange(1, top + 2)] if top > 9 else list(range(1, top + 2))
            asof = until = 0
            if r.random() < .85:
                for i in range(len(s.members) + 1):
                    for _ in range(r.choice([0, 0, 1, 1, 2]) if r.random() < .7 else 0):
                        asof, until = s.mark(i, r.choice(["asof", "until"]), r.choice(around), asof, until)
                    if i < len(s.members):
                        s.members[i]["asof"], s.members[i]["until"] = asof, until
            sensitive[s] = not s.version and (any(m["asof"] or m["until"] for m in s.members) or base_sensitive or any(sensitive[x] for x in self.uses(s)))
        # random walk through all combinations of version markers
        w = self.new_struct(ns=[], name="Walk")
        self.open = None
        w.version = r.choice([0, 3, 4])
        scale = r.choice([1, 1, 1, 2**20, 2**33]) if w.version else 1
        w.version *= scale
        asof = until = 0
        ints = [t for t in self.scalars if t.kind in ("int", "bool")]
        for i in range(30):
            for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
                asof, until = w.mark(i, r.choice(["asof", "until"]), scale * r.choice([1, 2, 3] if w.version else [1, 2, 3, 4]), asof, until)
            k = r.random()
            m = self.add(w, r.choice(ints), const=k < .1, access="private" if .1 <= k < .25 else "public")
            m["asof"], m["until"] = asof, until
            if r.random() < .2:
                m["after"] = r.choice([f"static int s{i};", f"static constexpr int c{i} = {i};", f"int f{i}() const {{ return 1; }}", f"using T{i} = int;", "enum { Item%d = 3 };" % i, f"struct N{i} {{ int x; }};"])
        h = self.new_struct(ns=[], name="Holder")
        self.open = None
        q = "::" + w.qual
        for t in (f"{r.choice(SEQ)}<{q}>", f"std::pair<int, {r.choice(SEQ)}<{q}>>", f"std::map<int, {q}>", f"std::optional<{q}>", f"std::vector<std::pair<{q}, bool>>", f"std::unique_ptr<{q}>", f"std::vector<std::shared_ptr<{q}>>", f"std::variant<int, {q}>"):
            self.add(h, T(t, "seq", copy=False), init=False)
        return self

    def literal(self, n):
        k = self.r.randrange(6)
        return hex(n) if k == 0 else f"{n}u" if k == 1 and n < 2**32 else f"{n}ull" if k == 2 else f"{n:,}".replace(",", "'") if k == 3 else oct(n).replace("0o", "0") if k == 4 else str(n)

    # --- output ----------------------------------------------------------------------------------------------------
    def header(self):
        o = ["#pragma once"] + (["#define REFLECTIVE_RAPIDJSON_SHORT_MACROS"] if self.short_macros else []) + ["#include <reflective_rapidjson/json/serializable.h>", "#include <reflective_rapidjson/binary/serializable.h>"]
        o += [f"#include <{h}>" for h in ("cstdint", "deque", "list", "map", "memory", "optional", "set", "string", "string_view", "tuple",
                                          "unordered_map", "unordered_set", "variant", "vector")]
        o += ["namespace vh { template <class T> struct Desc; }", ""]
        o.append(f"namespace u{self.index} {{ namespace en {{")
        for n, u, scoped in self.enums:
            o.append(f"enum {'class ' if scoped else ''}{n} : {u} {{ {n}_a, {n}_b = 5 }};")
        o.append("} }")
        for s in self.structs:
            o += self.struct_decl(s)
        return "\n".join(o) + "\n"

    def struct_decl(self, s):
        o = ["namespace " + "::".join(s.ns) + " {"]
        parents = []
        for b in s.bases:
            parents.append("public ::" + b.qual)
        if s.json and self.mode != "bin":
            parents.append(f"public ReflectiveRapidJSON::JsonSerializable<{s.name}>")
        if s.bin and self.mode != "json":
            parents.append(f"public ReflectiveRapidJSON::BinarySerializable<{s.name}{', %d' % s.version if s.version else ''}>")
        o.append(f"struct {s.name}" + (" : " + ", ".join(parents) if parents else "") + " {")
        o.append("    template <class> friend struct ::vh::Desc;")
        for d in s.extra_decl:
            o.append("    " + d)
        for i, m in enumerate(s.members + [None]):
            for kind, n in s.markers.get(i, ()):
                n = self.literal(n)
                if self.short_macros:
                    o.append(f"{'as_of' if kind == 'asof' else 'until'}_version({n}):")
                else:
                    o.append(f"REFLECTIVE_RAPIDJSON_{'AS_OF' if kind == 'asof' else 'UNTIL'}_VERSION({n}):")
            if m is None:
                break
            if m["access"] != "public":
                o.append(m["access"] + ":")
            o.append(f"    {'const ' if m['const'] else ''}{m['t'].cpp} {m['name']}{'' if m['init'] is None else (' = ' + m['init'] if m['init'] != '{}' else '{}')};")
            if m.get("after"):
                o.append("    " + m["after"])
            if m["access"] != "public":
                o.append("public:")
        o.append("};")
        o.append("} // namespace")
        return o

    def desc(self):
        o = ["#pragma once"]
        for s in self.structs:
            o.append(self.struct_desc(s))
        return "\n".join(o) + "\n"

    def fm(self, s, m):
        ponly = m["const"] or m["t"].kind in ("cstr", "sview")
        js = "true" if True else "false"
        pull = "false" if m["const"] else "true"
        b = "false" if m["const"] or m["access"] != "public" else "true"
        if m["access"] != "public":
            js = pull = "false"
        return f"Fm<{js}, {pull}, {b}, {b}, {'true' if m['const'] else 'false'}, {m['asof']}ull, {m['until']}ull>"

    def struct_desc(self, s):
        q = "::" + s.qual
        o = [f"template <> struct vh::Desc<{q}> {{", "    static constexpr bool is = true, hana = %s;" % ("true" if s.hana else "false"),
             f"    static constexpr const char *name = \"{s.qual}\";", f"    static constexpr std::uint64_t version = {s.version};",
             f"    static {q} make() {{ return {q}(); }}",
             "    template <class F> static void bases(F &&f) {", "        static_cast<void>(f);"]
        for b in sorted(s.bases, key=self.structs.index):  # bases are handled in the order of their definition
            o.append(f"        f(vh::BaseTag<::{b.qual}, {'true' if b.json else 'false'}, {'true' if b.bin else 'false'}>());")
        o += ["    }", "    template <class O, class F> static void fields(O &o, F &&f) {", "        static_cast<void>(o), static_cast<void>(f);"]
        for m in s.members:
            o.append(f"        f(vh::{self.fm(s, m)}{{ \"{m['name']}\" }}, o.{m['name']});")
        o += ["    }", "};"]
        return "\n".join(o)

    def main(self, check, top_level=(), extra=()):
        o = ['#include "vh/main.h"', '#include "types.h"', '#include "refl.h"', f'#include "vh/refjson.h"', '#include "desc.h"', f'#include "checks/{check}.h"', "static void run() {"]
        for s in self.structs:
            o.append(f"    vhcheck::type<::{s.qual}>(\"{s.qual}\");")
        for i, t in enumerate(top_level):
            o.append(f"    vhcheck::top<{t}>(\"{t}\");")
        o += ["    " + x for x in extra]
        o += ["}", "int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }"]
        return "\n".join(o) + "\n"
