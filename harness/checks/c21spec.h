// User-provided specialisations (included before the generated code like json/reflector-chronoutilities.h)
#pragma once
#include <reflective_rapidjson/binary/reflector.h>
#include <reflective_rapidjson/json/reflector.h>
// how often the specialisations have been used
struct ExtUse {
    std::size_t pushed = 0, pulled = 0, written = 0, read = 0;
};
inline ExtUse &extUse()
{
    static ExtUse u;
    return u;
}
namespace ReflectiveRapidJSON {
namespace JsonReflector {
using ExtValue = RAPIDJSON_NAMESPACE::Value;
using ExtAlloc = RAPIDJSON_NAMESPACE::Document::AllocatorType;
using ExtIn = RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>;
// Color: string
template <> inline void push<ext::Color>(const ext::Color &c, ExtValue &value, ExtAlloc &allocator)
{
    ++extUse().pushed;
    char buf[8];
    std::snprintf(buf, sizeof(buf), "#%02x%02x%02x", c.r, c.g, c.b);
    value.SetString(buf, 7, allocator);
}
template <> inline void pull<ext::Color>(ext::Color &c, const ExtIn &value, JsonDeserializationErrors *errors)
{
    ++extUse().pulled;
    if (!value.IsString()) {
        if (errors)
            errors->reportTypeMismatch<std::string>(value.GetType());
        return;
    }
    unsigned n[3];
    if (value.GetStringLength() != 7 || value.GetString()[0] != '#') {
        if (errors)
            errors->reportConversionError(JsonType::String);
        return;
    }
    for (int i = 0; i != 3; ++i) {
        n[i] = 0;
        for (int k = 1; k != 3; ++k) {
            const char x = value.GetString()[i * 2 + k];
            if (!((x >= '0' && x <= '9') || (x >= 'a' && x <= 'f'))) {
                if (errors)
                    errors->reportConversionError(JsonType::String);
                return;
            }
            n[i] = n[i] * 16 + static_cast<unsigned>(x <= '9' ? x - '0' : x - 'a' + 10);
        }
    }
    c.r = static_cast<std::uint8_t>(n[0]), c.g = static_cast<std::uint8_t>(n[1]), c.b = static_cast<std::uint8_t>(n[2]);
}
// Celsius: number
template <> inline void push<ext::Celsius>(const ext::Celsius &c, ExtValue &value, ExtAlloc &)
{
    ++extUse().pushed;
    value.SetInt(c.hundredths);
}
template <> inline void pull<ext::Celsius>(ext::Celsius &c, const ExtIn &value, JsonDeserializationErrors *errors)
{
    ++extUse().pulled;
    if (!value.IsInt()) {
        if (errors) {
            if (value.IsNumber())
                errors->reportConversionError(JsonType::Number);
            else
                errors->reportTypeMismatch<int>(value.GetType());
        }
        return;
    }
    c.hundredths = value.GetInt();
}
// Fraction: array handled by what the library provides
template <> inline void push<ext::Fraction>(const ext::Fraction &f, ExtValue &value, ExtAlloc &allocator)
{
    ++extUse().pushed;
    push(std::make_pair(f.n, f.d), value, allocator);
}
template <> inline void pull<ext::Fraction>(ext::Fraction &f, const ExtIn &value, JsonDeserializationErrors *errors)
{
    ++extUse().pulled;
    std::pair<int, int> p(f.n, f.d);
    pull(p, value, errors);
    if (p.second == 0) {
        if (errors)
            errors->reportConversionError(JsonType::Array);
        return;
    }
    f.n = p.first, f.d = p.second;
}
// Tag: object using the helpers for members
template <> inline void push<ext::Tag>(const ext::Tag &t, ExtValue &value, ExtAlloc &allocator)
{
    ++extUse().pushed;
    value.SetObject();
    auto o = value.GetObject();
    push(t.name, "name", o, allocator);
    push(t.weight, "weight", o, allocator);
}
template <> inline void pull<ext::Tag>(ext::Tag &t, const ExtIn &value, JsonDeserializationErrors *errors)
{
    ++extUse().pulled;
    if (!value.IsObject()) {
        if (errors)
            errors->reportTypeMismatch<ext::Tag>(value.GetType());
        return;
    }
    const auto o = value.GetObject();
    pull(t.name, "name", o, errors);
    pull(t.weight, "weight", o, errors);
}
} // namespace JsonReflector
namespace BinaryReflector {
#define EXT_BINARY(T, members)                                                                                                                       \
    template <> inline void writeCustomType<T>(BinarySerializer & s, const T &v, BinaryVersion version)                                              \
    {                                                                                                                                                \
        ++extUse().written;                                                                                                                          \
        static_cast<void>(version);                                                                                                                  \
        const auto f = [&s](const auto &x) { s.write(x); };                                                                                          \
        members                                                                                                                                      \
    }                                                                                                                                                \
    template <> inline BinaryVersion readCustomType<T>(BinaryDeserializer & d, T & v, BinaryVersion version)                                         \
    {                                                                                                                                                \
        ++extUse().read;                                                                                                                             \
        static_cast<void>(version);                                                                                                                  \
        const auto f = [&d](auto &x) { d.read(x); };                                                                                                 \
        members return 0;                                                                                                                            \
    }
EXT_BINARY(ext::Color, f(v.r); f(v.g); f(v.b);)
EXT_BINARY(ext::Fraction, f(v.n); f(v.d);)
EXT_BINARY(ext::Tag, f(v.name); f(v.weight);)
#undef EXT_BINARY
// Celsius: layout depends on the version of the surrounding record
template <> inline void writeCustomType<ext::Celsius>(BinarySerializer &s, const ext::Celsius &v, BinaryVersion version)
{
    ++extUse().written;
    if (version >= 3)
        s.write(static_cast<std::uint8_t>(0xC5));
    s.write(v.hundredths);
}
template <> inline BinaryVersion readCustomType<ext::Celsius>(BinaryDeserializer &d, ext::Celsius &v, BinaryVersion version)
{
    ++extUse().read;
    if (version >= 3) {
        std::uint8_t mark;
        d.read(mark);
        if (mark != 0xC5)
            throw CppUtilities::ConversionException("wrong mark");
    }
    d.read(v.hundredths);
    return 0;
}
} // namespace BinaryReflector
} // namespace ReflectiveRapidJSON
