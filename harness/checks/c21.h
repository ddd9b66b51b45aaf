// C21: extension points (custom containers, adapted classes, specialisations)
#include "../vh/refjson.h"
#include "../vh/refbin.h"
namespace vh {
VH_CAT(class T, ext::List<T>, Seq)
VH_CAT(class T, ext::Set<T>, Set)
VH_CAT(class T, ext::HashSet<T>, Set)
VH_CAT(class T, ext::MultiSet<T>, MSet)
VH_CAT(class T, ext::HashMultiSet<T>, MSet)
template <class K, class V> struct CatOf<ext::Map<K, V>> { static constexpr Cat get() { return Cat::Map; } };
template <class K, class V> struct CatOf<ext::HashMap<K, V>> { static constexpr Cat get() { return Cat::Map; } };
template <class K, class V> struct CatOf<ext::MultiMap<K, V>> { static constexpr Cat get() { return Cat::MMap; } };
template <class K, class V> struct CatOf<ext::HashMultiMap<K, V>> { static constexpr Cat get() { return Cat::MMap; } };
template <class T> struct IsUnordered<ext::HashSet<T>> : std::true_type {};
template <class T> struct IsUnordered<ext::HashMultiSet<T>> : std::true_type {};
template <class K, class V> struct IsUnordered<ext::HashMap<K, V>> : std::true_type {};
template <class K, class V> struct IsUnordered<ext::HashMultiMap<K, V>> : std::true_type {};
// the specialised types
template <> struct CustomGen<ext::Color> {
    static void into(Rng &r, ext::Color &c) { c.r = static_cast<std::uint8_t>(r.next()), c.g = static_cast<std::uint8_t>(r.below(2) * 255), c.b = static_cast<std::uint8_t>(r.below(3)); }
    static bool eq(const ext::Color &a, const ext::Color &b) { return a.r == b.r && a.g == b.g && a.b == b.b; }
    static std::string text(const ext::Color &c)
    {
        static const char *d = "0123456789abcdef";
        std::string s = "#";
        for (auto x : { c.r, c.g, c.b })
            s += d[x >> 4], s += d[x & 15];
        return s;
    }
    static void dump(std::string &o, const ext::Color &c) { o += text(c); }
    static J push(const ext::Color &c) { return J::str(text(c)); }
    static void pull(ext::Color &c, const J &j, PullCtx &x)
    {
        if (j.k != J::Str)
            return x.report(EK::TypeMismatch, JT::String, jt(j));
        if (j.s.size() != 7 || j.s[0] != '#' || j.s.find_first_not_of("0123456789abcdef", 1) != std::string::npos)
            return x.report(EK::ConversionError, JT::String, JT::String);
        const auto n = std::stoul(j.s.substr(1), nullptr, 16);
        c.r = static_cast<std::uint8_t>(n >> 16), c.g = static_cast<std::uint8_t>(n >> 8), c.b = static_cast<std::uint8_t>(n);
    }
};
template <> struct CustomGen<ext::Celsius> {
    static void into(Rng &r, ext::Celsius &c) { c.hundredths = genInt<std::int32_t>(r); }
    static bool eq(const ext::Celsius &a, const ext::Celsius &b) { return a.hundredths == b.hundredths; }
    static void dump(std::string &o, const ext::Celsius &c) { o += std::to_string(c.hundredths) + "cC"; }
    static J push(const ext::Celsius &c) { return refPush(c.hundredths); }
    static void pull(ext::Celsius &c, const J &j, PullCtx &x)
    {
        if (j.k != J::Num)
            return x.report(EK::TypeMismatch, JT::Number, jt(j));
        const auto n = classify(j.s);
        if (n.k == NumVal::I ? n.i < INT32_MIN || n.i > INT32_MAX : n.k == NumVal::U ? n.u > INT32_MAX : true)
            return x.report(EK::ConversionError, JT::Number, JT::Number);
        c.hundredths = static_cast<std::int32_t>(n.k == NumVal::I ? n.i : static_cast<std::int64_t>(n.u));
    }
};
template <> struct CustomGen<ext::Fraction> {
    static void into(Rng &r, ext::Fraction &f)
    {
        f.n = genInt<int>(r), f.d = genInt<int>(r);
        if (!f.d)
            f.d = 1;
    }
    static bool eq(const ext::Fraction &a, const ext::Fraction &b) { return a.n == b.n && a.d == b.d; }
    static void dump(std::string &o, const ext::Fraction &f) { o += std::to_string(f.n) + "/" + std::to_string(f.d); }
    static J push(const ext::Fraction &f) { return refPush(std::pair<int, int>(f.n, f.d)); }
    static void pull(ext::Fraction &f, const J &j, PullCtx &x)
    {
        std::pair<int, int> p(f.n, f.d);
        refPull(p, j, x);
        if (!p.second)
            return x.report(EK::ConversionError, JT::Array, JT::Array);
        f.n = p.first, f.d = p.second;
    }
};
template <> struct CustomGen<ext::Tag> {
    static void into(Rng &r, ext::Tag &t) { genInto(r, t.name), genInto(r, t.weight); }
    static bool eq(const ext::Tag &a, const ext::Tag &b) { return a.name == b.name && a.weight == b.weight; }
    static void dump(std::string &o, const ext::Tag &t) { o += "tag" + dumped(t.name) + std::to_string(t.weight); }
    static J push(const ext::Tag &t)
    {
        auto j = J::obj();
        j.o.emplace_back("name", refPush(t.name));
        j.o.emplace_back("weight", refPush(t.weight));
        return j;
    }
    template <class T> static void member(T &v, const char *name, const J &j, PullCtx &c)
    {
        const auto *m = j.find(name);
        if (!m)
            return;
        const auto previous = c.member;
        const auto had = c.hasMember;
        c.member = name, c.hasMember = true;
        refPull(v, *m, c);
        c.member = previous, c.hasMember = had;
    }
    static void pull(ext::Tag &t, const J &j, PullCtx &c)
    {
        if (j.k != J::Obj)
            return c.report(EK::TypeMismatch, JT::Object, jt(j));
        member(t.name, "name", j, c);
        member(t.weight, "weight", j, c);
    }
};
template <> struct CustomBin<ext::Color> {
    static void encode(Enc &e, const ext::Color &v, std::uint64_t) { e.u(v.r, 1), e.u(v.g, 1), e.u(v.b, 1); }
    static void decode(Dec &d, ext::Color &v, std::uint64_t)
    {
        v.r = static_cast<std::uint8_t>(d.u(1));
        v.g = static_cast<std::uint8_t>(d.u(1));
        v.b = static_cast<std::uint8_t>(d.u(1));
    }
};
template <> struct CustomBin<ext::Celsius> {
    static void encode(Enc &e, const ext::Celsius &v, std::uint64_t version)
    {
        if (version >= 3)
            e.u(0xC5, 1);
        e.u(static_cast<std::uint32_t>(v.hundredths), 4);
    }
    static void decode(Dec &d, ext::Celsius &v, std::uint64_t version)
    {
        if (version >= 3)
            d.u(1);
        v.hundredths = static_cast<std::int32_t>(d.u(4));
    }
};
template <> struct CustomBin<ext::Fraction> {
    static void encode(Enc &e, const ext::Fraction &v, std::uint64_t) { e.u(static_cast<std::uint32_t>(v.n), 4), e.u(static_cast<std::uint32_t>(v.d), 4); }
    static void decode(Dec &d, ext::Fraction &v, std::uint64_t)
    {
        v.n = static_cast<int>(d.u(4));
        v.d = static_cast<int>(d.u(4));
    }
};
template <> struct CustomBin<ext::Tag> {
    static void encode(Enc &e, const ext::Tag &v, std::uint64_t version) { vh::encode(e, v.name, version), vh::encode(e, v.weight, version); }
    static void decode(Dec &d, ext::Tag &v, std::uint64_t version) { vh::decode(d, v.name, version), vh::decode(d, v.weight, version); }
};
} // namespace vh
#include "../vh/jsoncheck.h"
#include "c09.h"
namespace c12 {
#include "c12.h"
}
namespace vhcheck {
inline void countUse(const ExtUse &before)
{
    auto &u = extUse();
    count("specialisation push", u.pushed - before.pushed);
    count("specialisation pull", u.pulled - before.pulled);
    count("specialisation write", u.written - before.written);
    count("specialisation read", u.read - before.read);
}
template <class T> void json(const char *name)
{
    scenario(std::string(name) + " json", report().cases, [](Rng &r, std::uint64_t i) {
        const auto use = extUse();
        r.budget = 60 + static_cast<int>(i % 5) * 40;
        const T v = gen<T>(r);
        const auto expected = refPush(v);
        const auto s = toJsonText(v);
        report().detail = s;
        evaluated(s.size() > 2 ? hashStr(s) : 0, s);
        std::string why;
        JsonParse p;
        if (!p.parse(s))
            return violation("invalid-json", s);
        if (!eq(p.value, expected, &why))
            violation("json-differs", why + ": " + dumped(v) + " is serialized as " + s + " instead of " + printed(expected));
        // round trip
        RR::JsonDeserializationErrors errors;
        const T w = JR::fromJson<T>(s, &errors);
        if (!errors.empty() || !same(v, w))
            violation("round-trip-differs", "[" + diffNote() + "] " + s + " is restored as " + dumped(w) + " with errors " + vh::text(conv(errors)));
        countUse(use);
    });
    scenario(std::string(name) + " documents", report().cases * 2, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        const J d = genDoc<T>(r, i % 8 == 0 ? 0 : i % 8 == 1 ? 12 : 4);
        if (!topMatches<T>(d))
            return;
        const auto s = printed(d, i % 3 ? nullptr : &r);
        report().detail = s;
        PullCtx c;
        Rng r1(i), r2(i);
        r1.budget = r2.budget = 60;
        auto expected = gen<T>(r1), existing = gen<T>(r2);
        refPull(expected, d, c);
        RR::JsonDeserializationErrors errors;
        const auto doc = JR::parseJsonDocFromString(s.data(), s.size());
        JR::pull(existing, doc, &errors);
        evaluated(hashStr(s), s + " => " + vh::text(c.errors));
        countKinds(c.errors);
        if (sorted(conv(errors)) != sorted(c.errors))
            violation("errors-differ", "reported " + vh::text(conv(errors)) + " expected " + vh::text(c.errors) + " for " + s);
        else if (!same(existing, expected))
            violation("read-differs", "[" + diffNote() + "] " + s + " is read as " + dumped(existing) + " instead of " + dumped(expected));
        const T plain = JR::fromJson<T>(s);
        PullCtx c2;
        if (!same(plain, refFromJson<T>(d, c2)))
            violation("read-differs-without-errors", "[" + diffNote() + "] " + s + " is read as " + dumped(plain));
    });
}
template <class T> void versioned(const char *name)
{
    scenario(std::string(name) + " versions", report().cases, [](Rng &r, std::uint64_t i) {
        const auto use = extUse();
        c12::vhcheck::versions<T>(r, i);
        countUse(use);
    });
}
template <class T> void binary(const char *name)
{
    scenario(std::string(name) + " binary", report().cases, [](Rng &r, std::uint64_t i) {
        const auto use = extUse();
        compare<T>(r, i);
        // into populated objects
        r.budget = 60;
        T w = gen<T>(r);
        clearSharedPools();
        const T v = gen<T>(r);
        clearSharedPools();
        const auto bytes = written(v);
        if constexpr (std::is_copy_constructible_v<T>) {
            const auto res = readInto(w, bytes);
            if (!res.ok || !same(v, w))
                violation("restore-differs", "[" + diffNote() + "] " + res.what + " restoring " + hex(bytes) + " gives " + dumped(w) + " instead of " + dumped(v));
        }
        countUse(use);
    });
}
} // namespace vhcheck
