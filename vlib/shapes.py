"""Random class definitions exercising what the generator has to get right (C13): access, friends, constants, statics,
functions, nesting, constructors, inheritance graphs, adaption of included classes, macros, versions."""
import random

from .progs import Prog, Struct, T

BR = "::ReflectiveRapidJSON::BinaryReflector"
DECOYS = '''namespace decoy {
template <class T> void push(const T &) {}
template <class T> void pull(T &) {}
template <class T> void writeCustomType(T &) {}
template <class T> void readCustomType(T &) {}
namespace JsonReflector { template <class T> void push(const T &) {} template <class T> void pull(T &) {} }
namespace BinaryReflector { template <class T> void writeCustomType(T &) {} template <class T> void readCustomType(T &) {} }
template <class T> struct Serializable {};
template <class T> struct JsonSerializable {};
template <class T> struct BinarySerializable {};
template <class T> struct Holder { T held{}; };
}
'''


class ShapeProg(Prog):
    def __init__(self, seed, index, versions=True):
        super().__init__(seed, "both", index)
        self.versions = versions
        self.namespaces = [[], ["inner"], ["a", "b"], ["deep", "er", "ns"]]

    def simple(self, own=True):
        r = self.r
        x = r.random()
        if x < .45:
            return self.scalar()
        if x < .75:
            k = r.choice(["std::vector<int>", "std::list<std::string>", "std::map<std::string, int>", "std::optional<int>", "std::set<int>", "std::pair<int, std::string>",
                          "std::variant<std::monostate, int, std::string>", "std::multimap<std::string, double>", "std::unique_ptr<int>"])
            return T(k, "seq", copy="unique" not in k)
        st = [s for s in self.structs if own and s is not self.open and s.jmark and s.bmark and s.ctor != "none" and not s.nested_in]
        if st:
            s = r.choice(st)
            q = "::" + s.qual
            w = r.choice(["%s", "std::vector<%s>", "std::unique_ptr<%s>", "std::map<std::string, %s>", "std::optional<%s>"])
            return T(w % q, "struct", copy=s.copy and "unique" not in w, struct=s)
        return self.scalar()

    def make(self, n=13):
        r = self.r
        for i in range(n):
            cand = [s for s in self.structs]
            included = i < 3
            bases = []
            if i and r.random() < .75:
                for b in r.sample(cand, min(len(cand), r.choice([1, 1, 1, 2, 2, 3]))):
                    if included and not b.included:
                        continue
                    if b.included and not included and (b.jmark == "inherit" or b.bmark == "inherit"):
                        continue  # known finding, see probe
                    if not any(set(self.closure(b)) & set(self.closure(x)) for x in bases):
                        bases.append(b)
            hosts = [s for s in self.structs if s.included == included and not s.nested_in and s not in bases]
            nest = r.choice(hosts) if hosts and r.random() < .6 and not bases else None
            s = self.new_struct(ns=r.choice(self.namespaces), bases=bases)
            s.included, s.nested_in, s.nested = included, None, []
            s.key = r.choice(["struct", "struct", "class"])
            s.jmark = r.choice(["adapt", "adapt", None] if included else ["inherit"] * 5 + ["adapt", None])
            s.bmark = r.choice(["adapt", "adapt", None] if included else ["inherit"] * 5 + ["adapt", None])
            s.typedef_base = r.random() < .15 and s.jmark == "inherit" and s.bmark == "inherit" and not nest
            s.via_macro = not included and r.random() < .15
            s.forward = r.random() < .25
            s.final = False
            s.json, s.bin = bool(s.jmark), bool(s.bmark)
            if self.versions and s.bmark == "inherit" and r.random() < .3:
                s.version = r.choice([1, 2, 3, 5, 200])
            s.ctor = r.choice(["implicit"] * 5 + ["explicit", "defaultarg", "none"])
            if any(b.ctor == "none" for b in bases) and s.ctor in ("implicit", "explicit"):
                s.ctor = "explicit"
            fr = lambda p: r.random() < p
            s.friends = dict(jpush=fr(.35), jpull=fr(.35), bwrite=fr(.35), bread=fr(.35))
            if fr(.3):
                s.friends.update(jpush=True, jpull=True)
            s.jmacro = s.friends["jpush"] and s.friends["jpull"] and fr(.7)
            s.body = []
            if s.version and r.random() < .5:
                asof = until = 0
            else:
                asof = None
            access = "public" if s.key == "struct" else "private"
            nmem = r.choice([0, 1, 2, 3, 4, 5, 6])
            for k in range(nmem):
                if r.random() < .45:
                    access = r.choice(["public", "private", "protected"])
                    s.body.append(("access", access))
                for _ in range(r.choice([0, 0, 1, 2])):
                    s.body.append(("decl", self.noise(s, s.via_macro or nest)))
                if asof is not None and r.random() < .5:
                    kind, v = r.choice(["asof", "until"]), r.randrange(1, s.version + 1)
                    s.body.append((kind, v))
                    if kind == "asof":
                        asof = v
                        if asof > until:
                            until = 0
                    else:
                        until = v
                        if until < asof:
                            asof = 0
                t = self.simple(not nest)
                const = r.random() < .15 and t.init is not None
                m = self.add(s, t, const=const, access=access)
                m["asof"], m["until"] = (asof or 0), (until if asof is not None else 0)
                m["mutable"] = not const and r.random() < .1
                s.body.append(("member", m))
            self.open = None
            if nest:
                s.nested_in = nest
                s.via_macro = s.typedef_base = s.forward = False
                s.ns = nest.ns + [nest.name]
                nest.nested.append(s)
                s.full_order = None
        self.order()
        return self

    def order(self):
        # definition order as it appears in the file: included ones first, nested ones right after start of the host
        o = []
        for inc in (True, False):
            for s in self.structs:
                if s.included == inc and not s.nested_in:
                    o.append(s)
                    o += s.nested
        self.position = {s: i for i, s in enumerate(o)}
        self.ordered = o

    def noise(self, s, plain):
        r = self.r
        self.used_names += 1
        u = self.used_names
        x = r.choice([
            f"static int st{u};",
            f"static constexpr int sc{u} = {u};",
            f"static const unsigned int rrj{u} = {u};",
            f"inline static std::string si{u} = \"x\";",
            f"int fun{u}() const {{ return {u}; }}",
            f"static int sfun{u}(int a) {{ return a; }}",
            f"template <class U> U tfun{u}(U u) {{ return u; }}",
            f"using Alias{u} = int;",
            f"typedef std::string Td{u};",
            f"enum Enum{u} {{ en{u}_a, en{u}_b }};",
            f"enum class EnumC{u} {{ a, b }};",
            f"struct Plain{u} {{ int plain{u} = 0; }};",
            f"template <class U> struct Tpl{u} {{ U tpl{u}; }};",
            f"friend class SomeFriend{u};",
            f"friend bool operator{r.choice(['<', '>'])}(const {s.name} &, const {s.name} &);" if r.random() < .5 else f"friend int freeFriend{u}();",
            f"friend void ::decoy::push<{s.name}>(const {s.name} &);",
            f"friend void ::decoy::JsonReflector::push<{s.name}>(const {s.name} &);",
            f"friend void ::decoy::JsonReflector::pull<{s.name}>({s.name} &);",
            f"friend void ::decoy::BinaryReflector::writeCustomType<{s.name}>({s.name} &);",
            f"friend void ::decoy::BinaryReflector::readCustomType<{s.name}>({s.name} &);",
            "static_assert(true, \"\");",
            f"/* int comment{u}; */",
            f"#if 0\n    int disabled{u} = 0;\n#endif",
            f"#ifdef REFLECTIVE_RAPIDJSON_GENERATOR_OTHER\n    int other{u} = 0;\n#endif",
        ])
        if plain and ("#" in x or "/*" in x):
            return f"static constexpr int sc{u} = {u};"
        return x

    # --- model -----------------------------------------------------------------------------------------------------
    def ancestors(self, s):
        r = []
        for b in s.bases:
            for x in [b] + self.ancestors(b):
                if x not in r:
                    r.append(x)
        return r

    def relevant_bases(self, s, mark):
        a = [x for x in self.ancestors(s) if getattr(x, mark)]
        return [x for x in a if not any(x in self.ancestors(y) for y in a)]

    def deserializable(self, s, mark):
        return s.ctor != "none" or any(getattr(o, mark) and o.ctor != "none" and s in self.ancestors(o) for o in self.structs)

    def fm(self, s, m):
        f = s.friends
        b = lambda x: "true" if x else "false"
        pub = m["access"] == "public"
        return f"Fm<{b(pub or f['jpush'])}, {b((pub or f['jpull']) and not m['const'])}, {b((pub or f['bwrite']) and not m['const'])}, {b((pub or f['bread']) and not m['const'])}, {b(m['const'])}, {m['asof']}u, {m['until']}u>"

    def struct_desc(self, s):
        q = "::" + s.qual
        b = lambda x: "true" if x else "false"
        o = [f"template <> struct vh::Desc<{q}> {{", "    static constexpr bool is = true, hana = false;",
             f"    static constexpr const char *name = \"{s.qual}\";", f"    static constexpr std::uint64_t version = {s.version};",
             f"    static {q} make() {{ return {q}({'7' if s.ctor == 'none' else ''}); }}",
             "    template <class F> static void bases(F &&f) {", "        static_cast<void>(f);"]
        rj, rb = self.relevant_bases(s, "jmark"), self.relevant_bases(s, "bmark")
        for x in sorted(self.ancestors(s), key=lambda x: self.position[x]):
            o.append(f"        f(vh::BaseTag<::{x.qual}, {b(x in rj)}, {b(x in rb)}>());")
        o += ["    }", "    template <class O, class F> static void fields(O &o, F &&f) {", "        static_cast<void>(o), static_cast<void>(f);"]
        for m in s.members:
            o.append(f"        f(vh::{self.fm(s, m)}{{ \"{m['name']}\" }}, o.{m['name']});")
        o += ["    }", "};"]
        return "\n".join(o)

    def desc(self):
        return "#pragma once\n" + "\n".join(self.struct_desc(s) for s in self.ordered) + "\n"

    # --- C++ -------------------------------------------------------------------------------------------------------
    def body_lines(self, s):
        r = random.Random(s.name)
        o = ["    template <class> friend struct ::vh::Desc;"]
        f = s.friends
        J = "::ReflectiveRapidJSON::JsonReflector"
        if s.jmacro:
            o.append(f"    REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS({s.name});")
        else:
            if f["jpush"]:
                o.append(f"    REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS({s.name});")
            if f["jpull"]:
                o.append(f"    REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS({s.name});")
        if f["bwrite"]:
            o.append(f"    friend void {BR}::writeCustomType<{s.name}>({BR}::BinarySerializer &, const {s.name} &, ::ReflectiveRapidJSON::BinaryVersion);")
        if f["bread"]:
            o.append(f"    friend ::ReflectiveRapidJSON::BinaryVersion ReflectiveRapidJSON::BinaryReflector::readCustomType<{s.name}>({BR}::BinaryDeserializer &, {s.name} &, ::ReflectiveRapidJSON::BinaryVersion);")
        r.shuffle(o)
        lines = []
        nested = []
        for x in s.nested:
            nested += ["    " + l for l in self.class_lines(x)]
        ctor = {"implicit": [], "explicit": [f"    {s.name}()%s {{}}"], "defaultarg": [f"    {s.name}(int arg = 3)%s {{ static_cast<void>(arg); }}"],
                "none": [f"    explicit {s.name}(int arg)%s {{ static_cast<void>(arg); }}"]}[s.ctor]
        ini = ", ".join(f"{b.name}(9)" for b in s.bases if b.ctor == "none")
        ctor = [c % (" : " + ini if ini else "") for c in ctor]
        head = ["public:"] + nested + ctor
        # friends might be anywhere
        where = r.randrange(3)
        lines += o if where == 0 else []
        lines += head
        lines.append(("public:" if s.key == "struct" else "private:"))
        pending = None
        spelling = random.Random(s.name + "spelling")
        for kind, x in s.body:
            if kind == "access":
                lines.append(x + ":")
            elif kind == "decl":
                lines.append("    " + x)
            elif kind in ("asof", "until"):
                lines.append(f"REFLECTIVE_RAPIDJSON_{'AS_OF' if kind == 'asof' else 'UNTIL'}_VERSION({x}):")
                # the marker changes access to public
                pending = True
            else:
                m = x
                if pending:
                    lines.append(m["access"] + ":")
                    pending = None
                init = "" if m["init"] is None else (" = " + m["init"] if m["init"] != "{}" else "{}")
                specs = f"{'mutable ' if m.get('mutable') else ''}{'const ' if m['const'] else ''}"
                plain = f"{specs}{m['t'].cpp} {m['name']}{init};"
                style = spelling.random()
                if style < .06:
                    plain = "[[maybe_unused]] " + plain
                elif style < .1:
                    plain = f"alignas(16) {plain}"
                elif style < .14:
                    plain = f"static int before{m['name']}(); {plain} void after{m['name']}();"
                elif style < .3 and not s.via_macro and not s.nested_in:
                    form = spelling.randrange(3)
                    if form == 0:
                        lines += [f"#define MEMBER_{m['name']}(n, ...) __VA_ARGS__ n", f"    MEMBER_{m['name']}({m['name']}, {specs}{m['t'].cpp}){init};"]
                    elif form == 1:
                        lines += [f"#define MEMBER_{m['name']}(a, b) a##b", f"    {specs}{m['t'].cpp} MEMBER_{m['name']}({m['name'][0]}, {m['name'][1:]}){init};"]
                    else:
                        lines += [f"#define MEMBER_{m['name']} {plain}", f"    MEMBER_{m['name']}"]
                    plain = None
                if plain:
                    lines.append("    " + plain)
        lines += o if where else []
        return lines

    def class_lines(self, s):
        r = random.Random(s.name + "b")
        parents = [f"public {'virtual ' if False else ''}::{b.qual}" for b in s.bases]
        ser = []
        pre = []
        if s.jmark == "inherit":
            ser.append(f"public ReflectiveRapidJSON::JsonSerializable<{s.name}>")
        if s.bmark == "inherit":
            ser.append(f"public ReflectiveRapidJSON::BinarySerializable<{s.name}{', %d' % s.version if s.version else ''}>")
        if s.typedef_base:
            pre = [f"{s.key} {s.name};", f"using {s.name}Json = {ser[0][7:]};", f"using {s.name}Binary = {ser[1][7:]};"]
            ser = [f"public {s.name}Json", f"public {s.name}Binary"]
        elif s.forward and not s.nested_in:
            pre = [f"{s.key} {s.name};"]
        if r.random() < .15:
            ser.append(f"public ::decoy::Holder<Tag{s.name}>")
            pre.append(f"struct Tag{s.name} {{ int tag{s.name} = 0; }};" if not s.nested_in else f"struct Tag{s.name} {{ int tag{s.name} = 0; }};")
        if r.random() < .1:
            ser.append(f"private ::decoy::JsonSerializable<{s.name}>")
        allp = parents + ser
        if r.random() < .5:
            allp = ser + parents
        lines = pre + [f"{s.key} {s.name}{' final' if s.final else ''}" + (" : " + ", ".join(allp) if allp else "") + " {"] + self.body_lines(s) + ["};"]
        if s.via_macro:
            i = len(pre)
            text = " \\\n".join(lines[i:])
            lines = lines[:i] + [f"#define DEFINE_{s.name} \\", text, f"DEFINE_{s.name}"]
        return lines

    def includes(self):
        return ["#include <reflective_rapidjson/json/serializable.h>", "#include <reflective_rapidjson/binary/serializable.h>"] + [f"#include <{h}>" for h in (
            "cstdint", "deque", "list", "map", "memory", "optional", "set", "string", "string_view", "tuple", "unordered_map", "unordered_set", "variant", "vector")]

    def part(self, included):
        o = []
        for s in self.structs:
            if s.included != included or s.nested_in:
                continue
            r = random.Random(s.name + "ns")
            if s.ns[1:] and r.random() < .3:
                o += [f"namespace {n} {{" for n in s.ns]
                end = "}" * len(s.ns)
            else:
                o.append("namespace " + "::".join(s.ns) + " {")
                end = "}"
            o += self.class_lines(s)
            o.append(end)
        if not included:
            adapt = []
            for s in self.structs:
                if s.jmark == "adapt":
                    adapt.append(f"REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(::{s.qual});")
                if s.bmark == "adapt":
                    adapt.append(f"REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(::{s.qual});")
            o += adapt
        return o

    def files(self):
        o = ["#pragma once"] + self.includes() + ["namespace vh { template <class T> struct Desc; }", DECOYS, f"namespace u{self.index} {{ namespace en {{"]
        for n, u, scoped in self.enums:
            o.append(f"enum {'class ' if scoped else ''}{n} : {u} {{ {n}_a, {n}_b = 5 }};")
        o += ["} }"] + self.part(True)
        return {"inc.h": "\n".join(o) + "\n"}

    def header(self):
        o = ["#pragma once", '#include "inc.h"'] + self.includes() + self.part(False)
        return "\n".join(o) + "\n"

    def main(self, check, top_level=(), extra=()):
        o = ['#include "vh/main.h"', '#include "types.h"', '#include "refl.h"', '#include "vh/refjson.h"', '#include "desc.h"', f'#include "checks/{check}.h"', "static void run() {"]
        b = lambda x: "true" if x else "false"
        for s in self.ordered:
            if s.jmark or s.bmark:
                o.append(f"    vhcheck::shape<::{s.qual}, {b(s.jmark)}, {b(s.bmark)}, {b(s.jmark and self.deserializable(s, 'jmark'))}, {b(s.bmark and self.deserializable(s, 'bmark'))}>(\"{s.qual}\");")
        o += ["    " + x for x in extra]
        o += ["}", "int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }"]
        return "\n".join(o) + "\n"
