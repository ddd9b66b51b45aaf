// C05: fatal errors
#include "../vh/jsoncheck.h"
namespace vhcheck {
inline RR::JsonDeserializationErrors::ThrowOn flagOf(EK k)
{
    using F = RR::JsonDeserializationErrors::ThrowOn;
    static const F flags[] = { F::TypeMismatch, F::ArraySizeMismatch, F::ConversionError, F::UnexpectedDuplicate, F::InvalidVariantObject, F::InvalidVariantIndex };
    return flags[static_cast<int>(k)];
}
template <class T> void type(const char *name)
{
    using F = RR::JsonDeserializationErrors::ThrowOn;
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        r.huge = i % 64 == 19;
        const J d = genDoc<T>(r, i % 8 == 1 ? 10 : 4);
        const auto s = printed(d);
        report().detail = s;
        RR::JsonDeserializationErrors none;
        const auto base = observe<T>([&] { return JR::fromJson<T>(s, &none); }, &none);
        if (base.thrown)
            return violation("thrown-without-flags", "throwOn is None but " + text(base) + " for " + s);
        evaluated(base.errors.empty() ? 0 : hashStr(s), s + " => " + vh::text(base.errors));
        countKinds(base.errors);
        for (unsigned n = 0; n != 10; ++n) {
            // each single flag, its complement, all and random subsets
            unsigned kinds;
            auto flags = F::None;
            if (n < 6)
                kinds = 1u << n;
            else if (n == 6)
                kinds = 0x3f;
            else if (n == 7 && !base.errors.empty())
                kinds = 0x3f & ~(1u << static_cast<unsigned>(base.errors.front().kind));
            else
                kinds = static_cast<unsigned>(r.below(64));
            if (n == 6)
                flags = F::All;
            else
                for (unsigned k = 0; k != 6; ++k)
                    if (kinds & (1u << k))
                        flags = flags | flagOf(static_cast<EK>(k));
            std::size_t first = 0;
            while (first != base.errors.size() && !(kinds & (1u << static_cast<unsigned>(base.errors[first].kind))))
                ++first;
            RR::JsonDeserializationErrors errors;
            errors.throwOn = flags;
            const auto o = observe<T>([&] { return JR::fromJson<T>(s, &errors); }, &errors);
            const auto info = " with kinds " + std::to_string(kinds) + ": " + text(o) + ", with throwOn None: " + text(base) + " for " + s;
            if (first == base.errors.size()) {
                count("nothing fatal");
                if (!agree(o, base))
                    violation("not-fatal-differs", "no error of selected kind but result differs" + info);
                continue;
            }
            count(std::string("fatal ") + vh::name(base.errors[first].kind));
            if (!o.error) {
                violation("not-thrown", "error of selected kind not thrown" + info);
                continue;
            }
            if (o.errors.empty() || !(o.errors.back() == *o.error))
                violation("thrown-not-last", "thrown error is not the last recorded one" + info);
            if (o.errors.size() != first + 1 || !std::equal(o.errors.begin(), o.errors.end(), base.errors.begin()))
                violation("recorded-differs", "recorded errors are not those up to the fatal one" + info);
        }
    });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
