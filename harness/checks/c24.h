// C24: all JSON entry points agree
#include "../vh/jsoncheck.h"
namespace vhcheck {
inline std::string str(const RJ::StringBuffer &b) { return std::string(b.GetString(), b.GetSize()); }
template <class T> inline constexpr bool hasMembers = std::is_base_of_v<RR::JsonSerializable<T>, T>;

template <class T> void serialize(Rng &r)
{
    const T v = gen<T>(r);
    report().detail = "value " + dumped(v);
    const auto text = toJsonText(v);
    JsonParse p;
    if (!p.parse(text))
        return violation("invalid-json", text);
    const auto check = [&](const char *what, const J &j) {
        std::string why;
        count(std::string("push: ") + what);
        if (!eq(j, p.value, &why))
            violation("serialize-differs", std::string(what) + " gives a different document than toJson(): " + why + " for " + text);
    };
    evaluated(hashStr(text), text);
    if constexpr (hasMembers<T>) {
        if (str(RR::template as<T>(v).toJson()) != text)
            violation("serialize-differs", "member toJson() gives different text for " + text);
        T &ref = const_cast<T &>(v);
        if (str(RR::template as<T>(ref).toJson()) != text)
            violation("serialize-differs", "member toJson() (non-const) gives different text for " + text);
        check("member toJsonDocument()", fromRapid(RR::template as<T>(v).toJsonDocument()));
    }
    check("toJsonDocument()", fromRapid(JR::toJsonDocument(v)));
    RJ::Document doc(RJ::kObjectType);
    auto &alloc = doc.GetAllocator();
    RJ::Value val;
    JR::push(v, val, alloc);
    check("push(value)", fromRapid(val));
    RJ::Value used(RJ::kArrayType); // value with previous content
    used.PushBack(RJ::Value(3), alloc);
    JR::push(v, used, alloc);
    check("push(used value)", fromRapid(used));
    RJ::Document target(RJ::kArrayType);
    JR::push(v, target, target.GetAllocator());
    check("push(document)", fromRapid(target));
    {
        RJ::Value arr(RJ::kArrayType);
        RJ::Value::Array a(arr.GetArray());
        JR::push(v, a, alloc);
        JR::push(v, a, alloc);
        const auto j = fromRapid(arr);
        if (j.a.size() != 2)
            violation("serialize-differs", "push to array adds " + std::to_string(j.a.size()) + " elements instead of 2");
        else
            check("push(array)", j.a[0]), check("push(array)", j.a[1]);
    }
    {
        RJ::Value obj(RJ::kObjectType);
        RJ::Value::Object o(obj.GetObject());
        JR::push(v, "first", o, alloc);
        JR::push(v, "second", o, alloc);
        const auto j = fromRapid(obj);
        if (j.o.size() != 2 || j.o[0].first != "first" || j.o[1].first != "second")
            violation("serialize-differs", "push as members gives " + printed(j));
        else
            check("push(object, name)", j.o[0].second), check("push(object, name)", j.o[1].second);
    }
    if constexpr (cat<T>() == Cat::Struct) {
        RJ::Value obj(RJ::kObjectType);
        RJ::Value::Object o(obj.GetObject());
        JR::push(v, o, alloc);
        check("push(object)", fromRapid(obj));
    }
}
template <class T> void deserialize(Rng &r, std::uint64_t i)
{
    std::string s = printed(genDoc<T>(r, 4), i % 3 ? nullptr : &r);
    if (i % 5 == 0) { // make it malformed
        if (r.chance(50))
            s.resize(static_cast<std::size_t>(r.below(s.size())));
        else
            s.insert(static_cast<std::size_t>(r.below(s.size() + 1)), r.chance(50) ? "]" : "x");
    } else if (i % 5 == 1)
        s = printed(genJ(r), nullptr); // most likely other JSON type
    if (i % 40 == 17) { // long text
        (r.chance(50) ? s.insert(0, 60000 + r.below(100000), ' ') : s.append(60000 + r.below(100000), r.chance(50) ? ' ' : '\n'));
        count("long texts");
    }
    report().detail = "text " + s;
    evaluated(hashStr(s));
    JsonParse p;
    const bool valid = p.parse(s);
    using Errors = RR::JsonDeserializationErrors;
    const auto throwOn = i % 4 == 3 ? Errors::ThrowOn::All : Errors::ThrowOn::None;
    Errors base;
    base.throwOn = throwOn;
    const auto expected = observe<T>([&] { return JR::fromJson<T>(s.data(), s.size(), &base); }, &base);
    const auto check = [&](const char *what, auto &&f) {
        Errors e;
        e.throwOn = throwOn;
        const auto o = observe<T>([&] { return f(&e); }, &e);
        count(std::string("pull: ") + what);
        if (!agree(expected, o))
            violation("deserialize-differs", std::string(what) + ": " + text(o) + ", fromJson(ptr, size): " + text(expected) + " for " + s);
    };
    check("fromJson(std::string)", [&](Errors *e) { return JR::fromJson<T>(s, e); });
    check("fromJson(C-string)", [&](Errors *e) { return JR::fromJson<T>(s.c_str(), e); });
    if (throwOn == Errors::ThrowOn::None) {
        const auto noErrors = observe<T>([&] { return JR::fromJson<T>(s.data(), s.size()); }, nullptr);
        if (!agree(expected, noErrors, false))
            violation("deserialize-differs", "without errors object: " + text(noErrors) + ", with: " + text(expected) + " for " + s);
        const auto noErrors2 = observe<T>([&] { return JR::fromJson<T>(s); }, nullptr);
        const auto noErrors3 = observe<T>([&] { return JR::fromJson<T>(s.c_str()); }, nullptr);
        if (!agree(expected, noErrors2, false) || !agree(expected, noErrors3, false))
            violation("deserialize-differs", "overload without errors object: " + text(noErrors2) + " " + text(noErrors3) + ", with: " + text(expected) + " for " + s);
    }
    if constexpr (hasMembers<T>) {
        using S = RR::JsonSerializable<T>;
        check("member fromJson(ptr, size)", [&](Errors *e) { return S::fromJson(s.data(), s.size(), e); });
        check("member fromJson(std::string)", [&](Errors *e) { return S::fromJson(s, e); });
        check("member fromJson(C-string)", [&](Errors *e) { return S::fromJson(s.c_str(), e); });
        if (throwOn == Errors::ThrowOn::None) {
            const auto a = observe<T>([&] { return S::fromJson(s.data(), s.size()); }, nullptr);
            const auto b = observe<T>([&] { return S::fromJson(s); }, nullptr);
            const auto c = observe<T>([&] { return S::fromJson(s.c_str()); }, nullptr);
            if (!agree(expected, a, false) || !agree(expected, b, false) || !agree(expected, c, false))
                violation("deserialize-differs", "member without errors object: " + text(a) + " " + text(b) + " " + text(c) + ", with: " + text(expected) + " for " + s);
        }
    }
    if (!valid)
        return count("malformed text");
    RJ::Document doc = JR::parseJsonDocFromString(s.data(), s.size());
    check("pull(value)", [&](Errors *e) {
        T t = T();
        JR::pull(t, static_cast<const RJ::Value &>(doc), e);
        return t;
    });
    if constexpr (cat<T>() == Cat::Struct)
        if (doc.IsObject())
            check("pull(object)", [&](Errors *e) {
                T t = T();
                JR::pull(t, static_cast<const RJ::Document &>(doc).GetObject(), e);
                return t;
            });
    if (!topMatches<T>(p.value)) {
        count("top-level mismatch");
        const Err e{ EK::TypeMismatch, expectedType<T>(), jt(p.value), "[document]", false, std::string(), noIndex };
        if (expected.errors != std::vector<Err>{ e })
            violation("top-level-mismatch", "errors " + vh::text(expected.errors) + " instead of " + e.text() + " for " + s);
        if (throwOn == Errors::ThrowOn::None && (!expected.value || !same(*expected.value, T())))
            violation("top-level-mismatch", "value " + text(expected) + " instead of default for " + s);
    }
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        if (i % 2)
            serialize<T>(r);
        else
            deserialize<T>(r, i / 2);
    });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
