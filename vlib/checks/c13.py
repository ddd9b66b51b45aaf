import threading

from .. import build as B
from ..driver import Check
from ..shapes import ShapeProg

PROBES = {
    "included-base": ('''#pragma once
#include "base.h"
struct Derived : public Base, public ReflectiveRapidJSON::JsonSerializable<Derived>, public ReflectiveRapidJSON::BinarySerializable<Derived> {
    int c = 3;
};
''', '{"a":1,"c":3}', '{"c":3}', "members of base class defined in an included header are missing"),
    "virtual-diamond": ('''#pragma once
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/serializable.h>
struct Base : public ReflectiveRapidJSON::JsonSerializable<Base>, public ReflectiveRapidJSON::BinarySerializable<Base> {
    int a = 1;
};
struct Left : public virtual Base, public ReflectiveRapidJSON::JsonSerializable<Left>, public ReflectiveRapidJSON::BinarySerializable<Left> {};
struct Right : public virtual Base, public ReflectiveRapidJSON::JsonSerializable<Right>, public ReflectiveRapidJSON::BinarySerializable<Right> {};
struct Derived : public Left, public Right, public ReflectiveRapidJSON::JsonSerializable<Derived>, public ReflectiveRapidJSON::BinarySerializable<Derived> {
    int c = 3;
};
''', '{"a":1,"c":3}', '{"a":1,"a":1,"c":3}', "members of virtual base class are considered multiple times"),
}
BASE = '''#pragma once
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/serializable.h>
struct Base : public ReflectiveRapidJSON::JsonSerializable<Base>, public ReflectiveRapidJSON::BinarySerializable<Base> {
    int a = 1;
};
'''
MAIN = '''#include "vh/main.h"
#include "types.h"
#include "refl.h"
#include "vh/lib.h"
static void run()
{
    vh::scenario("probe", 1, [](vh::Rng &, std::uint64_t) {
        vh::evaluated(1);
        const auto text = vh::toJsonText(Derived());
        if (text != EXPECTED)
            vh::violation(text == KNOWN ? KEY : "probe", WHAT + (": " + text));
    });
}
int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }
'''


def check(c):
    if c is None:
        return Check("C13", "exploration", "Random class definitions (access specifiers, friends for each direction, constant/static/mutable members, functions, templates, nested classes and namespaces, constructors, macros, "
                     "typedef'd bases, adapted included classes, multi-level/multiple inheritance incl. bases which are not serializable, versions) run through the real generator; the compiled code is executed with random "
                     "objects and documents/bytes containing all members, written members incl. order and populated members compared with the model. Non-trivial: any; distinct by (class, data).")
    gen = c.generator()
    c.min_evals = 5000
    c.required = {"JSON members written": 5000, "JSON members left out": 5000, "JSON pulled": 1000, "binary read": 1000, "without default constructor": 2, "deserialization functions": 30}
    progs = [ShapeProg(c.seed * 1000 + 300 + i, i).make(14 + i % 3) for i in range(c.scale(8, 48))]

    def symbols(i, p, d):
        """Classes without default constructor are only serialized."""
        rc, out, err = B.run(["nm", "--defined-only", d + "/main.o"])
        c.count("deserialization functions", out.count(" T _ZN19ReflectiveRapidJSON13JsonReflector4pullIN"))
        for s in p.structs:
            for mark, fn in (("jmark", "13JsonReflector4pull"), ("bmark", "15BinaryReflector14readCustomType")):
                if getattr(s, mark) and not p.deserializable(s, mark):
                    c.count("without default constructor")
                    parts = s.qual.split("::")
                    if " T _ZN19ReflectiveRapidJSON" + fn + "IN" + "".join(f"{len(x)}{x}" for x in parts) + "ET" in out:
                        c.violation("no-default-ctor", f"unit{i}: code for deserializing {s.qual} is generated despite it has no default constructor")
        c.count("classes", len(p.structs))
        for s in p.structs:
            for b in ("typedef_base", "via_macro", "nested_in", "included"):
                if getattr(s, b):
                    c.count("classes " + b)
            if len(s.bases) > 1:
                c.count("classes with multiple bases")
            if any(b.bases for b in s.bases):
                c.count("classes with indirect bases")

    def probe(key):
        types, expected, known, what = PROBES[key]
        d = c.out + "/" + key
        B.write(d + "/base.h", BASE)
        B.write(d + "/types.h", types)
        q = lambda s: '"' + s.replace('"', '\\"') + '"'
        B.write(d + "/main.cpp", (('#include "base.h"\n#include "base_refl.h"\n') if key == "included-base" else "") + MAIN.replace("EXPECTED", q(expected)).replace("KNOWN", q(known)).replace("KEY", q(key)).replace("WHAT", "std::string(" + q(what) + ")"))
        B.run_generator(gen, d + "/base.h", d + "/base_refl.h")
        B.run_generator(gen, d + "/types.h", d + "/refl.h")
        B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", B.harness_flags() + ["-I" + d])
        B.link([d + "/main.o"], d + "/main")
        c.run_exe(d + "/main", key, 1)
    t = threading.Thread(target=lambda: c.guarded(probe, list(PROBES), 2))
    t.start()
    try:
        c.run_programs(gen, progs, "c13", c.scale(40, 300), ["json", "binary"], on_unit=symbols)
    finally:
        t.join()
