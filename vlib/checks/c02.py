from ..driver import Check
from .. import build as B
from . import jsonfam

PROBE = r'''
#include "vh/main.h"
#include "vh/json.h"
#include <reflective_rapidjson/json/reflector.h>
#include <limits>
using namespace vh;
template <class T> void probe(const char *name, T v)
{
    scenario(name, 1, [&](Rng &, std::uint64_t) {
        std::map<std::string, T> m;
        m["x"] = v;
        m["y"] = T(1);
        const auto b = ReflectiveRapidJSON::JsonReflector::toJson(m);
        const std::string text(b.GetString(), b.GetSize());
        evaluated(hashStr(text));
        JsonParse p;
        if (!p.parse(text))
            violation("non-finite-number", std::string(name) + " is serialized as invalid JSON: " + text);
    });
}
static void run()
{
    probe("double NaN", std::numeric_limits<double>::quiet_NaN());
    probe("double Inf", std::numeric_limits<double>::infinity());
    probe("double -Inf", -std::numeric_limits<double>::infinity());
    probe("float NaN", std::numeric_limits<float>::quiet_NaN());
    probe("float Inf", std::numeric_limits<float>::infinity());
}
int main(int argc, char **argv) { return harnessMain(argc, argv, run); }
'''


def check(c):
    if c is None:
        return Check("C02", "exploration", "Random class definitions (incl. string views, C-strings and constant members), per class random values; text parsed by an independent strict parser and compared with "
                     "the documented mapping computed from the value. Non-trivial: text has content; distinct by (class, text).")
    c.required = {"enormous-containers": 20, "serialize-only": 2000}
    jsonfam.run(c, "c02", 200, 3000, push_only=True, enormous=True)
    d = c.out + "/probe"
    B.write(d + "/main.cpp", PROBE)
    B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", B.harness_flags())
    B.link([d + "/main.o"], d + "/main")
    c.run_exe(d + "/main", "probe", 1)
