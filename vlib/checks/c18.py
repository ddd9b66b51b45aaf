from ..driver import Check
from ..progs import Prog, T


class ChronoProg(Prog):
    """A program with times as leafs."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        keep = [t for t in self.scalars if t.cpp in ("int", "std::string", "bool", "double")]
        f = self.mode == "json"  # rounding may change the order of sets
        self.scalars = keep + [T("CppUtilities::DateTime", "time", True, flt=f, init=["CppUtilities::DateTime(637000000000000000)"]), T("CppUtilities::DateTime", "time", True, flt=f),
                               T("CppUtilities::TimeSpan", "time", True, flt=f, init=["CppUtilities::TimeSpan(-36000000000)"]), T("CppUtilities::TimeSpan", "time", True, flt=f)]

    def pair_cover(self):
        # all containers of times in addition
        times = [t for t in self.scalars if t.kind == "time"]
        return [x for x in (self.wrap(o, self.r.choice(times)) for o in self.outers() for _ in range(2)) if x] + super().pair_cover()

    def header(self):
        return "#include <c++utilities/chrono/datetime.h>\n#include <c++utilities/chrono/timespan.h>\n" + super().header()

    def main(self, check, top_level=(), extra=()):
        text = super().main(check, top_level, extra)
        kind = "binary" if self.mode == "bin" else "json"
        text = text.replace('#include "refl.h"\n', f'#include <reflective_rapidjson/{kind}/reflector-chronoutilities.h>\n#include "refl.h"\n')
        if self.mode == "bin":
            text = text.replace("static void run() {", "static void run() {\n    vh::timeFlags().anyRange = vh::timeFlags().exact = true;")
            for t in ("CppUtilities::DateTime", "CppUtilities::TimeSpan", "std::vector<CppUtilities::DateTime>"):
                text = text.replace("}\nint main", f'    vhcheck::top<{t}>("{t}");\n}}\nint main')
        return text


# The C++ utilities format times via streams which are affected by the global locale.
PROBE = r'''
#include "vh/main.h"
#include "vh/json.h"
#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
using namespace vh;
namespace RR = ReflectiveRapidJSON;
template <class T> void probe(const char *key, T v, const std::string &expected)
{
    scenario(key, 1, [&](Rng &, std::uint64_t) {
        const auto d = RR::JsonReflector::toJson(std::map<std::string, T>{ { "t", v } });
        const std::string text(d.GetString(), d.GetSize());
        evaluated(hashStr(text));
        if (text != "{\"t\":\"" + expected + "\"}")
            violation(*std::getenv("VH_LOCALE") == '1' ? key : "classic-locale", "is serialized as " + text + " instead of " + expected);
    });
}
static void run()
{
    probe("grouped-year", CppUtilities::DateTime::fromDateAndTime(2024, 2, 3, 4, 5, 6), "2024-02-03T04:05:06");
    probe("grouped-hours", CppUtilities::TimeSpan::fromHours(1234), "1234:00:00");
    probe("short-year", CppUtilities::DateTime::fromDateAndTime(24, 2, 3, 4, 5, 6), "0024-02-03T04:05:06");
    probe("few-hours", CppUtilities::TimeSpan::fromMinutes(754), "12:34:00");
}
int main(int argc, char **argv) { return harnessMain(argc, argv, run); }
'''


def check(c):
    if c is None:
        return Check("C18", "exploration", "Random classes with times in all places; values within year 1 to 9999 resp. below 100000 hours incl. boundaries written to JSON and read back as well as read by an independent "
                     "calendar model; documents with other notations (time zones, omitted components, days/seconds only), malformed strings of several kinds and other JSON types read into new and populated objects, "
                     "values and errors compared with the model; binary representation of all 64-bit values compared byte by byte in both directions. Non-trivial: not empty; distinct by (class, data).")
    c.required = {"dates written": 5000, "spans written": 2000, "negative spans written": 1000, "date: time zone": 300, "date: omitted components": 300, "date: out of range": 200, "date: unexpected character": 200,
                  "date: null byte": 200, "span: days": 300, "span: seconds": 200, "span: unexpected character": 200, "span: null byte": 200, "error ConversionError": 1000, "error TypeMismatch": 500}
    c.min_evals = 5000
    c.locales = False  # see PROBE
    n = c.scale(4, 12)
    gen = c.generator()
    nb = c.scale(3, 8)
    mk = lambda mode, i, k: ChronoProg(c.seed * 1000 + 900 + i, mode, i, floats_in_sets=False).populate(i % k, k, extra=c.scale(4, 12))
    progs = [mk("json", i, n) for i in range(n)]
    bprogs = [mk("bin", n + i, nb) for i in range(nb)]
    import threading
    out = c.out
    t = threading.Thread(target=lambda: run_binary(c, gen, bprogs))
    t.start()
    try:
        c.run_programs(gen, progs, "c18", c.scale(150, 3000), ["json"])
    finally:
        t.join()
    from .. import build as B
    d = c.out + "/probe"
    B.write(d + "/main.cpp", PROBE)
    B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", B.harness_flags())
    B.link([d + "/main.o"], d + "/main")
    for i in (0, 1):
        c.run_exe(d + "/main", "probe" + str(i), 1, extra_env={"VH_LOCALE": str(i)})


def run_binary(c, gen, progs):
    from .. import build as B

    def job(p):
        unit = f"binary{p.index}"
        if c.replay and c.replay.get("unit") not in (None, unit):
            return
        d = f"{c.out}/{unit}"
        B.write(d + "/types.h", p.header())
        B.write(d + "/desc.h", p.desc())
        B.write(d + "/main.cpp", p.main("c18b"))
        B.run_generator(gen, d + "/types.h", d + "/refl.h", ["binary"])
        B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", B.harness_flags() + ["-I" + d])
        B.link([d + "/main.o"], d + "/main")
        c.run_exe(d + "/main", unit, c.scale(120, 3000))
    c.guarded(job, progs)
