// C18: chrono types in JSON
#include "chrono.h"
#include "../vh/jsoncheck.h"
template <class T> T fresh()
{
    if constexpr (vh::cat<T>() == vh::Cat::Struct)
        return vh::Desc<T>::make();
    else
        return T();
}
namespace vhcheck {
// all time strings within a document written by the library
inline void checkTimeStrings(const J &j)
{
    if (j.k == J::Str) {
        std::int64_t t;
        if (parseDate(j.s, t))
            count("dates written");
        else if (parseSpan(j.s, t))
            count(t < 0 ? "negative spans written" : "spans written");
    }
    for (auto &x : j.a)
        checkTimeStrings(x);
    for (auto &m : j.o)
        checkTimeStrings(m.second);
}
template <class T> void type(const char *name)
{
    scenario(std::string(name) + " values", report().cases, [](Rng &r, std::uint64_t i) {
        auto &f = timeFlags();
        f = TimeFlags();
        r.budget = 60 + static_cast<int>(i % 5) * 40;
        const T v = gen<T>(r);
        const auto s = toJsonText(v);
        report().detail = s;
        evaluated(s.size() > 2 ? hashStr(s) : 0, s);
        // independent reader
        JsonParse p;
        if (!p.parse(s))
            return violation("invalid-json", s);
        checkTimeStrings(p.value);
        PullCtx c;
        const T w = refFromJson<T>(p.value, c);
        if (f.undecided)
            violation("notation", "no timestamp/time span according to ISO: " + s);
        else if (!c.errors.empty() || !same(v, w))
            violation("written-differs", "[" + diffNote() + "] " + dumped(v) + " is written as " + s);
        // library
        RR::JsonDeserializationErrors errors;
        const T x = JR::fromJson<T>(s, &errors);
        if (!errors.empty() || !same(v, x))
            violation("round-trip-differs", "[" + diffNote() + "] " + dumped(v) + " is restored as " + dumped(x) + " via " + s + " with errors " + vh::text(conv(errors)));
    });
    scenario(std::string(name) + " documents", report().cases * 2, [](Rng &r, std::uint64_t i) {
        auto &f = timeFlags();
        f = TimeFlags();
        r.budget = 60 + static_cast<int>(i % 5) * 40;
        Rng notations(r.next());
        f.notations = &notations;
        J d = refPush(gen<T>(r));
        f.notations = nullptr;
        if (i % 3 == 0)
            for (auto n = r.below(4); n; --n)
                mutate(d, r);
        const auto s = printed(d, i % 2 ? nullptr : &r);
        report().detail = s;
        if (!topMatches<T>(d))
            return;
        PullCtx c;
        Rng r1(i), r2(i);
        r1.budget = r2.budget = 60;
        auto expected = gen<T>(r1), existing = gen<T>(r2); // populated before
        const bool populated = r.chance(50);
        if (!populated)
            expected = fresh<T>(), existing = fresh<T>();
        refPull(expected, d, c);
        if (f.undecided)
            return count("undecided");
        for (auto &x : f.stats)
            count(x.first, x.second);
        evaluated(hashStr(s), s + " => " + vh::text(c.errors));
        countKinds(c.errors);
        RR::JsonDeserializationErrors errors;
        if (populated) {
            const auto doc = JR::parseJsonDocFromString(s.data(), s.size());
            JR::pull(existing, doc, &errors);
        } else
            existing = JR::fromJson<T>(s, &errors);
        if (sorted(conv(errors)) != sorted(c.errors))
            violation("errors-differ", "reported " + vh::text(conv(errors)) + " expected " + vh::text(c.errors) + " for " + s);
        else if (!same(existing, expected))
            violation("read-differs", "[" + diffNote() + "] " + s + " is read as " + dumped(existing) + " instead of " + dumped(expected) + (populated ? " (populated before)" : ""));
        // no errors object
        const auto without = JR::fromJson<T>(s);
        if (!populated && !same(without, existing))
            violation("errors-object-matters", "without errors object " + s + " is read as " + dumped(without) + " instead of " + dumped(existing));
        // fatal conversion errors
        RR::JsonDeserializationErrors fatal;
        fatal.throwOn = RR::JsonDeserializationErrors::ThrowOn::ConversionError;
        const auto o = observe<T>([&] { return JR::fromJson<T>(s, &fatal); }, &fatal);
        const bool any = std::any_of(c.errors.begin(), c.errors.end(), [](auto &e) { return e.kind == EK::ConversionError; });
        if (any != o.thrown)
            violation("fatal-differs", std::string("conversion error ") + (o.thrown ? "thrown" : "not thrown") + " for " + s);
    });
}
} // namespace vhcheck
