import re

from ..driver import Check
from ..progs import Prog, T

CONT = {"ext::List": "std::vector", "ext::Set": "std::set", "ext::HashSet": "std::unordered_set", "ext::MultiSet": "std::multiset", "ext::HashMultiSet": "std::unordered_multiset",
        "ext::Map": "std::map", "ext::HashMap": "std::unordered_map", "ext::MultiMap": "std::multimap", "ext::HashMultiMap": "std::unordered_multimap"}
MACRO = {"Set": "SET", "HashSet": "SET", "MultiSet": "MULTI_SET", "HashMultiSet": "MULTI_SET", "Map": "MAP_OR_HASH", "HashMap": "MAP_OR_HASH", "MultiMap": "MULTI_MAP_OR_HASH", "HashMultiMap": "MULTI_MAP_OR_HASH"}
TYPES = """namespace ext {
template <class T> struct List : public std::vector<T> { using std::vector<T>::vector; };
template <class T> struct Set : public std::set<T> { using std::set<T>::set; };
template <class T> struct HashSet : public std::unordered_set<T> { using std::unordered_set<T>::unordered_set; };
template <class T> struct MultiSet : public std::multiset<T> { using std::multiset<T>::multiset; };
template <class T> struct HashMultiSet : public std::unordered_multiset<T> { using std::unordered_multiset<T>::unordered_multiset; };
template <class K, class V> struct Map : public std::map<K, V> { using std::map<K, V>::map; };
template <class K, class V> struct HashMap : public std::unordered_map<K, V> { using std::unordered_map<K, V>::unordered_map; };
template <class K, class V> struct MultiMap : public std::multimap<K, V> { using std::multimap<K, V>::multimap; };
template <class K, class V> struct HashMultiMap : public std::unordered_multimap<K, V> { using std::unordered_multimap<K, V>::unordered_multimap; };
struct Color {
    std::uint8_t r = 1, g = 2, b = 3;
    bool operator<(const Color &o) const { return r != o.r ? r < o.r : g != o.g ? g < o.g : b < o.b; }
    bool operator==(const Color &o) const { return r == o.r && g == o.g && b == o.b; }
};
struct Celsius {
    std::int32_t hundredths = 0;
    bool operator<(const Celsius &o) const { return hundredths < o.hundredths; }
    bool operator==(const Celsius &o) const { return hundredths == o.hundredths; }
};
struct Fraction {
    int n = 0, d = 1;
};
struct Tag {
    std::string name;
    int weight = 0;
};
}
template <> struct std::hash<ext::Color> {
    std::size_t operator()(const ext::Color &c) const { return c.r + c.g * 256u + c.b * 65536u; }
};
template <> struct std::hash<ext::Celsius> {
    std::size_t operator()(const ext::Celsius &c) const { return static_cast<std::size_t>(c.hundredths); }
};
"""


def instantiations(cpp):
    """All custom container types within the type (innermost first)."""
    res = []
    for m in re.finditer(r"(?<!std::)\bext::(\w+)<", cpp):
        depth, i = 1, m.end()
        while depth:
            depth += {"<": 1, ">": -1}.get(cpp[i], 0)
            i += 1
        if m.group(1) in MACRO:
            res.append((m.group(1), cpp[m.start():i]))
    return res[::-1]


class ExtProg(Prog):
    """A program with custom containers, adapted classes and specialised leaf types."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        keep = [t for t in self.scalars if t.cpp in ("int", "std::string", "bool", "double") or t.kind == "enum"]
        self.scalars = keep[:6] + [T("ext::Color", "custom", True, True), T("ext::Celsius", "custom", True, True), T("ext::Fraction", "custom"), T("ext::Tag", "custom")]
        self.seen = set()
        self.places = {}
        self.versioned = False

    def outers(self):
        return super().outers() + list(CONT)

    def wrap(self, outer, inner):
        std = CONT.get(outer)
        t = super().wrap(std or outer, inner)
        if t and std:
            t.cpp = outer + t.cpp[len(std):]
            t.init = None
            if std == "std::vector":
                t.less = False
        if t and "ext::" in inner.cpp:
            self.places[outer] = self.places.get(outer, 0) + 1
        return t

    def pair_cover(self):
        r = self.r
        customs = [t for t in self.scalars if t.kind == "custom"]
        res = [self.wrap(o, r.choice(customs)) for o in self.outers() for _ in range(2)]
        inner = list(CONT)
        for o in self.outers():
            for k in r.sample(inner, 4):
                c = self.wrap(k, self.key(True) if "Set" in k else self.leaf())
                res.append(self.wrap(o, c) if c else None)
        for k in inner:
            for _ in range(2):
                t = self.rand_type(1)
                res.append(self.wrap(k, self.key(True) if "Set" in k else t))
        return [t for t in res if t]

    def adapt_some(self):
        for i, s in enumerate(self.structs):
            s.adapt = self.r.random() < .55 and not s.version
        return self

    def header(self):
        text = super().header()
        return text.replace("namespace vh { template", TYPES + "namespace vh { template", 1)

    def struct_decl(self, s):
        o = []
        for m in s.members:
            for name, cpp in instantiations(m["t"].cpp):
                if cpp not in self.seen:
                    self.seen.add(cpp)
                    o.append(f"namespace ReflectiveRapidJSON {{ using ExtAlias{len(self.seen)} = ::{cpp}; REFLECTIVE_RAPIDJSON_TREAT_AS_{MACRO[name]}(ExtAlias{len(self.seen)}); }}")
        text = super().struct_decl(s)
        if s.adapt:
            text = [re.sub(r",? ?public ReflectiveRapidJSON::(Json|Binary)Serializable<[^>]*>", "", l) if l.startswith("struct " + s.name) else l for l in text]
            text = [re.sub(r"^struct (\w+) : *\{", r"struct \1 {", l) for l in text]
            if self.mode != "bin":
                text.append(f"REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE({s.qual});")
            if self.mode != "json":
                text.append(f"REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE({s.qual});")
        return o + text

    def main(self, check, top_level=(), extra=()):
        o = ['#include "vh/main.h"', '#include "types.h"', '#include "checks/c21spec.h"', '#include "refl.h"', '#include "vh/refjson.h"', '#include "desc.h"', f'#include "checks/{check}.h"', "static void run() {"]
        for s in self.structs:
            if self.mode != "bin":
                o.append(f"    vhcheck::json<::{s.qual}>(\"{s.qual}\");")
            if self.mode != "json":
                o.append(f"    vhcheck::{'versioned' if self.versioned else 'binary'}<::{s.qual}>(\"{s.qual}\");")
        seen = []
        for s in self.structs:
            for m in s.members:
                cpp = m["t"].cpp
                if cpp.startswith("ext::") and cpp not in seen:
                    seen.append(cpp)
        for cpp in seen[:6]:
            if self.mode == "bin" and not self.versioned:
                o.append(f"    vhcheck::binary<{cpp}>(\"{cpp}\");")
            elif self.mode == "json" and cpp.split("<")[0] in CONT and "Set" not in cpp.split("<")[0]:
                o.append(f"    vhcheck::json<{cpp}>(\"{cpp}\");")
        return "\n".join(o + ["}", "int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }"]) + "\n"


def check(c):
    if c is None:
        return Check("C21", "exploration", "Random classes with custom containers (marked with the macros), classes adapted with the macros (no serializable base) and types with user specialisations in all places; JSON and bytes of random "
                     "values, documents with errors (read into populated and new objects) and bytes of an independent writer compared with the models of the standard containers/ordinary classes. Distinct by (class, data).")
    c.required = {"specialisation push": 5000, "specialisation pull": 5000, "specialisation write": 5000, "specialisation read": 5000, "error ConversionError": 100, "error TypeMismatch": 500, "error UnexpectedDuplicate": 30}
    c.min_evals = 5000
    n = c.scale(7, 21)
    gen = c.generator()
    progs = []
    for i in range(n):
        p = ExtProg(c.seed * 1000 + 1300 + i, ["json", "bin", "both"][i % 3], i, floats_in_sets=False)
        p.populate(i // 3 % 3, 3 if c.thorough else 4, extra=c.scale(4, 10))
        if i % 6 == 1:
            p.add_versions()
            p.versioned = True
        p.adapt_some()
        progs.append(p)
        for k, v in p.places.items():
            c.count("custom within " + k, v)
        c.count("adapted classes", sum(s.adapt for s in p.structs))
    c.run_programs(gen, progs, "c21", c.scale(100, 2500), ["json", "binary"])
