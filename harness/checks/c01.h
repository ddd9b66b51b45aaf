// C01: JSON round trip
#include "../vh/lib.h"
namespace vhcheck {
using namespace vh;
template <class T> void roundTrip(Rng &r, std::uint64_t i)
{
    r.big = i % 8 == 0;
    r.huge = i == 17 || i % 64 == 57;
    r.utf8 = i % 8 != 3; // any string content is restored
    r.budget = i % 8 == 0 ? 2000 : 60 + static_cast<int>(i % 5) * 40;
    T v = gen<T>(r);
    auto &rep = report();
    std::string text;
    rep.detail = "value " + dumped(v);
    text = toJsonText(v);
    rep.detail = "text " + text;
    evaluated(text.size() > 2 ? hashStr(text) : 0, text);
    RR::JsonDeserializationErrors errors;
    try {
        const T w = JR::fromJson<T>(text.data(), text.size(), &errors);
        if (!same(v, w))
            violation("value-differs", "[" + diffNote() + "] value " + dumped(v) + " restored as " + dumped(w) + " via " + text);
        if (!errors.empty())
            violation("errors-reported", "errors " + vh::text(conv(errors)) + " reported for " + text);
    } catch (const RJ::ParseResult &p) {
        violation("parse-error", "own output not parsable at " + std::to_string(p.Offset()) + ": " + text);
    }
    if (i % 4 == 0) { // without errors object, via std::string overload
        try {
            const T w = JR::fromJson<T>(text);
            if (!same(v, w))
                violation("value-differs", "[" + diffNote() + "] value " + dumped(v) + " restored (no errors object) as " + dumped(w) + " via " + text);
        } catch (const RJ::ParseResult &p) {
            violation("parse-error", "own output not parsable: " + text);
        }
    }
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { roundTrip<T>(r, i); });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
