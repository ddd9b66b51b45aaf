// C06: partial and mismatching documents populate exactly the matching parts
#include "../vh/jsoncheck.h"
namespace vhcheck {
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        r.huge = i % 64 == 21;
        unsigned mutations = 0;
        J d = genDoc<T>(r, i % 8 == 1 ? 12 : 4, &mutations);
        if (d.k == J::Obj && i % 3 == 0)
            for (std::size_t n = d.o.size(); n > 1; --n)
                std::swap(d.o[n - 1], d.o[r.below(n)]);
        const auto s = printed(d, i % 3 ? nullptr : &r);
        report().detail = s;
        evaluated(mutations ? hashStr(s) : 0, s);
        if (topMatches<T>(d)) {
            PullCtx c;
            const T expected = refFromJson<T>(d, c);
            count(c.errors.empty() ? "matching documents" : "mismatching documents");
            RR::JsonDeserializationErrors errors;
            const T got = JR::fromJson<T>(s, i % 2 ? &errors : nullptr);
            if (!same(expected, got))
                violation("value", "[" + diffNote() + "] got " + dumped(got) + " expected " + dumped(expected) + " for " + s);
        }
        // populate an existing object
        const auto seed = r.next();
        T obj = genSeed<T>(seed), model = genSeed<T>(seed);
        const auto before = dumped(obj);
        PullCtx c;
        refPull(model, d, c);
        RJ::Document doc = JR::parseJsonDocFromString(s.data(), s.size());
        RR::JsonDeserializationErrors errors;
        JR::pull(obj, static_cast<const RJ::Value &>(doc), i % 2 ? &errors : nullptr);
        if (!same(model, obj))
            violation("value-existing", "[" + diffNote() + "] got " + dumped(obj) + " expected " + dumped(model) + " for " + s + " pulled into " + before);
        count("pulled into populated object");
    });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
