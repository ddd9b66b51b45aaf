// C04: exact error reports
#include "../vh/jsoncheck.h"
namespace vhcheck {
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        r.huge = i % 64 == 17;
        const J d = genDoc<T>(r, i % 8 == 0 ? 0 : i % 8 == 1 ? 12 : 4);
        const auto s = printed(d, i % 3 ? nullptr : &r);
        report().detail = s;
        PullCtx c;
        if (!topMatches<T>(d))
            c.report(EK::TypeMismatch, expectedType<T>(), jt(d));
        else
            refFromJson<T>(d, c);
        RR::JsonDeserializationErrors errors;
        std::vector<Err> previous;
        if (i % 4 == 0) { // an errors object which has been used before
            using F = RR::JsonDeserializationErrors::ThrowOn;
            errors.throwOn = i % 8 ? F::All : F::None;
            const auto other = genDoc<T>(r, 3);
            const auto text = printed(other);
            report().detail = text + " (" + std::to_string(i % 3) + "), then " + s;
            try {
                if (i % 3 == 0)
                    static_cast<void>(JR::fromJson<T>(text, &errors));
                else { // populate via document
                    RJ::Document doc = JR::parseJsonDocFromString(text.data(), text.size());
                    T object = genSeed<T>(r.next());
                    if constexpr (cat<T>() == Cat::Struct) {
                        if (i % 3 == 1 && doc.IsObject())
                            JR::pull(object, static_cast<const RJ::Value &>(doc).GetObject(), &errors);
                        else
                            JR::pull(object, static_cast<const RJ::Value &>(doc), &errors);
                    } else
                        JR::pull(object, static_cast<const RJ::Value &>(doc), &errors);
                }
                count("errors object reused");
            } catch (const RR::JsonDeserializationError &) {
                count("errors object reused after fatal error");
            }
            errors.throwOn = F::None;
            report().detail = s + " after " + text;
            previous = conv(errors);
        }
        static_cast<void>(JR::fromJson<T>(s, &errors));
        auto got = conv(errors);
        if (got.size() < previous.size() || !std::equal(previous.begin(), previous.end(), got.begin()))
            return violation("previous-errors", "errors recorded before have been altered, deserializing " + s);
        got.erase(got.begin(), got.begin() + static_cast<std::ptrdiff_t>(previous.size()));
        evaluated(c.errors.empty() ? 0 : hashStr(vh::text(c.errors) + s), s + " => " + vh::text(c.errors));
        countKinds(c.errors);
        count(c.errors.empty() ? "documents without error" : c.errors.size() == 1 ? "documents with one error" : "documents with several errors");
        if (sorted(got) != sorted(c.errors))
            violation("errors-differ", "reported " + vh::text(got) + " expected " + vh::text(c.errors) + " for " + (previous.empty() ? s : report().detail));
    });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
