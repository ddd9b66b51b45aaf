from .. import build as B
from ..driver import Check
from ..progs import Prog
from . import binfam

TYPES = '''#pragma once
#include <reflective_rapidjson/binary/serializable.h>
struct Base : public ReflectiveRapidJSON::BinarySerializable<Base> {
    int a = 1;
REFLECTIVE_RAPIDJSON_AS_OF_VERSION(2):
    int b = 2;
};
struct Derived : public Base, public ReflectiveRapidJSON::BinarySerializable<Derived, 3> {
    int c = 3;
};
'''
MAIN = '''#include "vh/main.h"
#include "types.h"
#include "refl.h"
#include "vh/binlib.h"
static void run()
{
    vh::scenario("base", 1, [](vh::Rng &, std::uint64_t) {
        Derived d;
        d.a = 10, d.b = 20, d.c = 30;
        vh::evaluated(1);
        std::ostringstream os;
        vh::BR::BinarySerializer(&os).write(d, 3);
        std::istringstream is(os.str());
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        Derived x;
        const auto res = vh::guardedRead<Derived>([&](auto &) { vh::BR::BinaryDeserializer(&is).read(x); });
        if (!res.ok || x.a != 10 || x.b != 20 || x.c != 30)
            vh::violation("unversioned-base-of-versioned-class", "data of class with unversioned base cannot be read back: " + res.what);
    });
}
int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }
'''


def programs(c, n):
    progs = []
    for i in range(n):
        p = Prog(c.seed * 1000 + 700 + i, "bin", i).populate(i % 8, 8, extra=c.scale(4, 10)).add_versions()
        p.short_macros = i % 2 == 1
        progs.append(p)
    return progs


def check(c):
    if c is None:
        return Check("C12", "exploration", "Random class definitions with random versions and version marker sequences, nested in all ways; per class random values x all interesting versions: bytes matched against the model, "
                     "read into new and populated objects, version prefixes replaced by unsupported ones. Non-trivial: any; distinct by (class, bytes).")
    c.min_evals = 5000
    c.required = {"version_prefixes": 10000, "returned_versions": 2000, "unsupported_versions": 1000}
    gen = c.generator()
    progs = programs(c, c.scale(7, 24))

    def probe():
        d = c.out + "/probe"
        B.write(d + "/types.h", TYPES)
        B.write(d + "/main.cpp", MAIN)
        B.run_generator(gen, d + "/types.h", d + "/refl.h", ["binary"])
        B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", B.harness_flags() + ["-I" + d])
        B.link([d + "/main.o"], d + "/main")
        c.run_exe(d + "/main", "probe", 1)
    import threading
    t = threading.Thread(target=lambda: c.guarded(lambda f: f(), [probe]))
    t.start()
    try:
        c.run_programs(gen, progs, "c12", c.scale(50, 500), ["binary"])
    finally:
        t.join()
