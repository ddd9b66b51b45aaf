// Glue between the library under test and the reference models.
#pragma once
#include "refjson.h"
#include "report.h"
#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/serializable.h>

namespace vh {
namespace RR = ::ReflectiveRapidJSON;
namespace JR = ::ReflectiveRapidJSON::JsonReflector;
namespace RJ = ::RAPIDJSON_NAMESPACE;

template <class V> J fromRapid(const V &v)
{
    switch (v.GetType()) {
    case RJ::kNullType:
        return J::null();
    case RJ::kFalseType:
        return J::boolean(false);
    case RJ::kTrueType:
        return J::boolean(true);
    case RJ::kStringType:
        return J::str(std::string(v.GetString(), v.GetStringLength()));
    case RJ::kNumberType:
        if (v.IsUint64())
            return J::num(intLit(static_cast<std::uint64_t>(v.GetUint64())));
        if (v.IsInt64())
            return J::num(intLit(static_cast<std::int64_t>(v.GetInt64())));
        return J::num(dblLit(v.GetDouble()));
    case RJ::kArrayType: {
        auto j = J::arr();
        for (auto &x : v.GetArray())
            j.a.push_back(fromRapid(x));
        return j;
    }
    default: {
        auto j = J::obj();
        for (auto &m : v.GetObject())
            j.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), fromRapid(m.value));
        return j;
    }
    }
}
inline EK conv(RR::JsonDeserializationErrorKind k)
{
    using K = RR::JsonDeserializationErrorKind;
    switch (k) {
    case K::TypeMismatch: return EK::TypeMismatch;
    case K::ArraySizeMismatch: return EK::ArraySizeMismatch;
    case K::ConversionError: return EK::ConversionError;
    case K::UnexpectedDuplicate: return EK::UnexpectedDuplicate;
    case K::InvalidVariantObject: return EK::InvalidVariantObject;
    case K::InvalidVariantIndex: return EK::InvalidVariantIndex;
    }
    violation("invalid-error-kind", "error kind out of range: " + std::to_string(static_cast<int>(k)));
    return EK::TypeMismatch;
}
inline JT conv(RR::JsonType t)
{
    using K = RR::JsonType;
    switch (t) {
    case K::Null: return JT::Null;
    case K::Number: return JT::Number;
    case K::Bool: return JT::Bool;
    case K::String: return JT::String;
    case K::Array: return JT::Array;
    case K::Object: return JT::Object;
    }
    violation("invalid-json-type", "JSON type out of range: " + std::to_string(static_cast<int>(t)));
    return JT::Null;
}
inline Err conv(const RR::JsonDeserializationError &e)
{
    return Err{ conv(e.kind), conv(e.expectedType), conv(e.actualType), e.record ? e.record : "(null)", e.member != nullptr, e.member ? e.member : "",
        e.index };
}
inline std::vector<Err> conv(const RR::JsonDeserializationErrors &es)
{
    std::vector<Err> r;
    for (auto &e : es)
        r.push_back(conv(e));
    return r;
}
template <class T> std::string toJsonText(const T &v)
{
    const auto b = JR::toJson(v);
    return std::string(b.GetString(), b.GetSize());
}
// text in a heap buffer of exactly the right size so over-reads are detected
struct Exact {
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit Exact(std::string_view s)
        : p(new char[s.size()])
        , n(s.size())
    {
        std::memcpy(p.get(), s.data(), n);
    }
};
inline std::vector<Err> sorted(std::vector<Err> e)
{
    std::sort(e.begin(), e.end());
    return e;
}

// model of fromJson<T>() for a parsed document
template <class T> T refFromJson(const J &doc, PullCtx &c)
{
    T t = [] {
        if constexpr (cat<T>() == Cat::Struct)
            return Desc<T>::make();
        else
            return T();
    }();
    refPull(t, doc, c);
    return t;
}
} // namespace vh
