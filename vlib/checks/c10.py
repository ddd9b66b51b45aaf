from .. import build as B
from ..driver import Check
from . import binfam

MAIN = '''#include "vh/main.h"
#include "checks/c10types.h"
#include "refl.h"
#include "checks/c10.h"
static void run()
{
    vhcheck::graphs();
    // pointers of different types to the same address
    vh::scenario("aliasing", 1, [](vh::Rng &, std::uint64_t) {
        auto owner = std::make_shared<std::pair<int, std::string>>(42, "x");
        auto alias = std::shared_ptr<int>(owner, &owner->first);
        std::ostringstream os;
        {
            vh::BR::BinarySerializer s(&os);
            s.write(owner);
            s.write(alias);
        }
        vh::evaluated(1);
        std::istringstream is(os.str());
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        vh::BR::BinaryDeserializer d(&is);
        std::shared_ptr<std::pair<int, std::string>> o;
        std::shared_ptr<int> a;
        const auto res = vh::guardedRead<int>([&](auto &) { d.read(o); d.read(a); });
        if (!res.ok || !a || *a != 42)
            vh::violation("aliased-first-member", "pointers of different types to the same address cannot be restored: " + res.what);
    });
}
int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }
'''


def check(c):
    if c is None:
        return Check("C10", "exploration", "Random object graphs of six mutually recursive types (cycles, several types, inheritance, pointers in all containers) written in sequences by two interleaved serializers, read back "
                     "and compared by lockstep isomorphism incl. use counts; the same graphs encoded independently with identifiers of all sizes; random classes with shared members; JSON copies. "
                     "Non-trivial: at least one shared object; distinct by bytes.")
    c.required = {"graph_objects": 2000, "many_objects": 70000, "graph_repeated_references": 2000, "pointers_repeated": 50, "dangling_references": 20, "json_copies": 500, "temporaries": 500, "neighbours_same": 2000, "neighbours_distinct": 5000}
    gen = c.generator()
    c.min_evals = 1000

    def job(unit):
        d = f"{c.out}/{unit[0]}"
        B.write(d + "/main.cpp", unit[1])
        B.run_generator(gen, f"{B.VERIF}/harness/checks/c10types.h", d + "/refl.h")
        B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", B.harness_flags() + ["-I" + d])
        B.link([d + "/main.o"], d + "/main")
        for k in range(unit[2]):
            c.run_exe(d + "/main", unit[0], c.scale(200, 5000))
    progs = binfam.programs(c, 7, 16)
    import threading
    t = threading.Thread(target=lambda: c.guarded(job, [("graphs", MAIN, 1)]))
    t.start()
    try:
        c.run_programs(gen, progs, "c10", c.scale(200, 4000), ["binary"])
    finally:
        t.join()
