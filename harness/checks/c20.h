// C20: error messages
#include "../vh/jsoncheck.h"
#include <reflective_rapidjson/json/errorformatting.h>
namespace vhcheck {
// what the message has to be (independent of the library)
inline const char *kindText(EK k)
{
    switch (k) {
    case EK::TypeMismatch: return "type mismatch";
    case EK::ArraySizeMismatch: return "array size mismatch";
    case EK::ConversionError: return "conversion error";
    case EK::UnexpectedDuplicate: return "unexpected duplicate";
    case EK::InvalidVariantObject: return "invalid variant object";
    default: return "invalid variant index";
    }
}
inline const char *typeText(JT t)
{
    static const char *const n[] = { "null", "number", "bool", "string", "array", "object" };
    return n[static_cast<int>(t)];
}
inline std::string expectedMessage(EK k, JT exp, JT act, const char *record, const char *member, std::size_t index)
{
    std::string s = kindText(k);
    if (record) {
        s += std::string(" within record \"") + record + "\"";
        if (member)
            s += std::string(" and member \"") + member + "\"";
        else if (index != noIndex)
            s += " and index \"" + std::to_string(index) + "\"";
    } else
        s += " in document";
    if (k == EK::TypeMismatch)
        s += std::string(": expected \"") + typeText(exp) + "\", got \"" + typeText(act) + "\"";
    return s;
}
inline void compare(const RR::JsonDeserializationError &e, const Err &m, bool hasRecord)
{
    const auto expected = expectedMessage(m.kind, m.exp, m.act, hasRecord ? m.record.c_str() : nullptr, m.hasMember ? m.member.c_str() : nullptr, m.index);
    const auto got = RR::formatJsonDeserializationError(e);
    count(std::string("message ") + kindText(m.kind));
    count(!hasRecord ? "message without record" : m.hasMember ? m.index != noIndex ? "message with member and index" : "message with member" : m.index != noIndex ? "message with index" : "message with record only");
    evaluated(hashStr(expected), expected);
    if (got != expected)
        violation("message-differs", "message is '" + got + "' instead of '" + expected + "'");
    if (RR::formatJsonDeserializationError(e) != got)
        violation("message-not-repeatable", "formatting again yields another message");
}
// all combinations of kinds, types and present/absent context
inline void enumerate()
{
    using K = RR::JsonDeserializationErrorKind;
    using T = RR::JsonType;
    static const K kinds[] = { K::TypeMismatch, K::ArraySizeMismatch, K::ConversionError, K::UnexpectedDuplicate, K::InvalidVariantObject, K::InvalidVariantIndex };
    static const T types[] = { T::Null, T::Number, T::Bool, T::String, T::Array, T::Object };
    static const RJ::Type rapid[] = { RJ::kNullType, RJ::kFalseType, RJ::kTrueType, RJ::kObjectType, RJ::kArrayType, RJ::kStringType, RJ::kNumberType };
    static const JT fromRapidType[] = { JT::Null, JT::Bool, JT::Bool, JT::Object, JT::Array, JT::String, JT::Number };
    scenario("types", 1, [](Rng &, std::uint64_t) {
        for (int i = 0; i != 6; ++i) {
            const std::string got(RR::jsonTypeToString(types[i]));
            evaluated(hashStr(got) + 1);
            if (got != typeText(static_cast<JT>(i)))
                violation("type-name", "type " + std::to_string(i) + " is named '" + got + "' instead of '" + typeText(static_cast<JT>(i)) + "'");
        }
        for (int i = 0; i != 7; ++i) {
            const std::string got(RR::jsonTypeToString(RR::jsonType(rapid[i])));
            evaluated(hashStr(got) + 2);
            if (got != typeText(fromRapidType[i]))
                violation("type-name", "RapidJSON type " + std::to_string(i) + " is named '" + got + "' instead of '" + typeText(fromRapidType[i]) + "'");
        }
    });
    scenario("combinations", report().thorough ? 60 : 6, [](Rng &r, std::uint64_t i) {
        const auto text = [&](int k) -> std::optional<std::string> {
            switch (k) {
            case 0: return std::nullopt;
            case 1: return std::string();
            case 2: return r.pick(std::vector<std::string>{ "record", "[document]", "a::b<c, d>", "\" and member \"", "%s %d %n", "null", " in document", "\xc3\xa4\xf0\x9f\x98\x80", "\\\"", std::string(5000, 'x') });
            default: {
                std::string s;
                for (auto n = 1 + r.below(40); n; --n)
                    s += static_cast<char>(1 + r.below(255));
                return s;
            }
            }
        };
        for (int k = 0; k != 6; ++k)
            for (int e = 0; e != 6; ++e)
                for (int a = 0; a != 6; ++a)
                    for (int rec = 0; rec != 4; ++rec)
                        for (int mem = 0; mem != 4; ++mem)
                            for (int idx = 0; idx != 4; ++idx) {
                                const auto record = text(rec), member = text(mem);
                                const std::size_t index = idx == 0 ? noIndex : idx == 1 ? 0 : idx == 2 ? noIndex - 1 : r.next() >> r.below(64);
                                // names in blocks of their own so over-reads are detected
                                const std::unique_ptr<char[]> rp(record ? new char[record->size() + 1] : nullptr), mp(member ? new char[member->size() + 1] : nullptr);
                                if (record)
                                    std::memcpy(rp.get(), record->c_str(), record->size() + 1);
                                if (member)
                                    std::memcpy(mp.get(), member->c_str(), member->size() + 1);
                                RR::JsonDeserializationError x(kinds[k], types[e], types[a], rp.get(), mp.get(), index);
                                if (idx == 0 && i % 2)
                                    x = RR::JsonDeserializationError(kinds[k], types[e], types[a], rp.get(), mp.get());
                                compare(x, Err{ static_cast<EK>(k), static_cast<JT>(e), static_cast<JT>(a), record.value_or(""), member.has_value(), member.value_or(""), index }, record.has_value());
                            }
    });
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        const J d = genDoc<T>(r, i % 4 == 1 ? 12 : 4);
        PullCtx c;
        if (!topMatches<T>(d))
            c.report(EK::TypeMismatch, expectedType<T>(), jt(d));
        else
            refFromJson<T>(d, c);
        RR::JsonDeserializationErrors errors;
        {
            const auto s = std::make_unique<Exact>(printed(d));
            report().detail = std::string(s->p.get(), s->n);
            try {
                static_cast<void>(JR::fromJson<T>(s->p.get(), s->n, &errors));
            } catch (const RR::JsonDeserializationError &) {
            }
        }
        // messages of the errors really reported, in order of the text so several errors can be matched
        std::vector<std::string> got, expected;
        for (auto &e : errors)
            got.push_back(RR::formatJsonDeserializationError(e));
        for (auto &e : c.errors)
            expected.push_back(expectedMessage(e.kind, e.exp, e.act, e.record.c_str(), e.hasMember ? e.member.c_str() : nullptr, e.index));
        std::sort(got.begin(), got.end());
        std::sort(expected.begin(), expected.end());
        count("messages of documents", expected.size());
        std::string id;
        for (auto &e : expected)
            id += e + "\n";
        evaluated(id.empty() ? 0 : hashStr(id), id);
        if (got != expected) {
            std::string g;
            for (auto &e : got)
                g += e + "\n";
            violation("document-message-differs", "messages are\n" + g + "instead of\n" + id + "for " + report().detail);
        }
    });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
