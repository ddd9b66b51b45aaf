// Core helpers of the verification harness: PRNG, type classification, reflection descriptors, value generation,
// deep comparison and dumping. Deliberately independent of the code under test (only standard headers).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <limits>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace vh {

void count(const std::string &c, std::uint64_t n);

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline std::uint64_t hashBytes(const void *p, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ull)
{
    auto *c = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i != n; ++i)
        h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}
inline std::uint64_t hashStr(std::string_view s) { return hashBytes(s.data(), s.size()); }

struct Rng {
    std::uint64_t s;
    int depth = 0; // current nesting depth when generating values
    int budget = 250; // remaining number of leaf values
    bool finite = true; // avoid NaN/Inf
    bool utf8 = true; // only valid UTF-8 strings
    bool big = false; // allow rare big containers/strings
    bool huge = false; // make one (of the outer) containers/strings huge
    bool enormous = false; // make the outermost container have about 2^16 (and more) elements
    explicit Rng(std::uint64_t seed) : s(mix(seed ^ 0x5bd1e995)) {}
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        auto x = s;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned percent) { return below(100) < percent; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

template <class T> struct tag {
    using type = T;
};

// describes a base class: whether it is (JSON/binary) serializable on its own
template <class T, bool Json, bool Bin> struct BaseTag {
    using type = T;
    static constexpr bool json = Json, bin = Bin;
};

// compile-time description of a data member
// JP/JU: pushed to/pulled from JSON, BW/BR: written to/read from binary, C: constant member
template <bool JP, bool JU, bool BW, bool BR, bool C, std::uint64_t AsOf = 0, std::uint64_t Until = 0> struct Fm {
    static constexpr bool jpush = JP, jpull = JU, bwrite = BW, bread = BR, isConst = C;
    static constexpr std::uint64_t asOf = AsOf, until = Until;
    const char *name;
};

// specialised for each described class
template <class T> struct Desc {
    static constexpr bool is = false;
};

enum class Cat { Bool, Int, Flt, Enum, Str, CStr, SView, Seq, Set, MSet, Map, MMap, Pair, Tuple, UPtr, SPtr, Opt, Var, Mono, Struct, Custom };
template <class T> struct CustomCat {
    static constexpr Cat value = Cat::Custom;
};
template <class T> struct CatOf {
    static constexpr Cat get()
    {
        if constexpr (std::is_same_v<T, bool>)
            return Cat::Bool;
        else if constexpr (std::is_enum_v<T>)
            return Cat::Enum;
        else if constexpr (std::is_integral_v<T>)
            return Cat::Int;
        else if constexpr (std::is_floating_point_v<T>)
            return Cat::Flt;
        else if constexpr (Desc<T>::is)
            return Cat::Struct;
        else
            return CustomCat<T>::value;
    }
};
#define VH_CAT(tparams, type, cat)                                                                                                                   \
    template <tparams> struct CatOf<type> {                                                                                                          \
        static constexpr Cat get() { return Cat::cat; }                                                                                              \
    };
template <> struct CatOf<std::string> { static constexpr Cat get() { return Cat::Str; } };
template <> struct CatOf<const char *> { static constexpr Cat get() { return Cat::CStr; } };
template <> struct CatOf<std::string_view> { static constexpr Cat get() { return Cat::SView; } };
template <> struct CatOf<std::monostate> { static constexpr Cat get() { return Cat::Mono; } };
VH_CAT(class T, std::vector<T>, Seq)
VH_CAT(class T, std::list<T>, Seq)
VH_CAT(class T, std::deque<T>, Seq)
VH_CAT(class T, std::set<T>, Set)
VH_CAT(class T, std::unordered_set<T>, Set)
VH_CAT(class T, std::multiset<T>, MSet)
VH_CAT(class T, std::unordered_multiset<T>, MSet)
template <class K, class V> struct CatOf<std::map<K, V>> { static constexpr Cat get() { return Cat::Map; } };
template <class K, class V> struct CatOf<std::unordered_map<K, V>> { static constexpr Cat get() { return Cat::Map; } };
template <class K, class V> struct CatOf<std::multimap<K, V>> { static constexpr Cat get() { return Cat::MMap; } };
template <class K, class V> struct CatOf<std::unordered_multimap<K, V>> { static constexpr Cat get() { return Cat::MMap; } };
template <class A, class B> struct CatOf<std::pair<A, B>> { static constexpr Cat get() { return Cat::Pair; } };
VH_CAT(class... T, std::tuple<T...>, Tuple)
VH_CAT(class T, std::unique_ptr<T>, UPtr)
VH_CAT(class T, std::shared_ptr<T>, SPtr)
VH_CAT(class T, std::optional<T>, Opt)
VH_CAT(class... T, std::variant<T...>, Var)
template <class T> constexpr Cat cat() { return CatOf<std::remove_cv_t<T>>::get(); }

template <class T> struct IsUnordered : std::false_type {};
template <class T> struct IsUnordered<std::unordered_set<T>> : std::true_type {};
template <class T> struct IsUnordered<std::unordered_multiset<T>> : std::true_type {};
template <class K, class V> struct IsUnordered<std::unordered_map<K, V>> : std::true_type {};
template <class K, class V> struct IsUnordered<std::unordered_multimap<K, V>> : std::true_type {};

// calls f with an lvalue of every alternative index (compile time)
template <class Var, class F, std::size_t I = 0> void forAlternative(std::size_t index, F &&f)
{
    if constexpr (I < std::variant_size_v<Var>) {
        if (index == I)
            f(std::integral_constant<std::size_t, I>{});
        else
            forAlternative<Var, F, I + 1>(index, std::forward<F>(f));
    }
}

// calls f with std::integral_constant for every index of the tuple
template <class Tup, class F, std::size_t I = 0> void forTuple(F &&f)
{
    if constexpr (I < std::tuple_size_v<Tup>) {
        f(std::integral_constant<std::size_t, I>{});
        forTuple<Tup, F, I + 1>(std::forward<F>(f));
    }
}

// static storage for string views / C-strings of generated values (never freed; strings for "push only" members)
inline std::deque<std::string> &stringPool()
{
    static thread_local std::deque<std::string> p;
    return p;
}

inline void appendUtf8(std::string &s, std::uint32_t c)
{
    if (c < 0x80)
        s += static_cast<char>(c);
    else if (c < 0x800) {
        s += static_cast<char>(0xC0 | (c >> 6));
        s += static_cast<char>(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
        s += static_cast<char>(0xE0 | (c >> 12));
        s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        s += static_cast<char>(0x80 | (c & 0x3F));
    } else {
        s += static_cast<char>(0xF0 | (c >> 18));
        s += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
        s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        s += static_cast<char>(0x80 | (c & 0x3F));
    }
}

inline std::string genString(Rng &r, bool nul = true)
{
    static const std::vector<std::string> special = { "", "", "a", "foo", "null", "true", "42", "\"", "\\", "a\"b\\c/d", "\b\f\n\r\t", "\x01\x1f\x7f",
        "\xc3\xa4\xc3\xb6\xc3\xbc", "\xe2\x82\xac \xe2\x80\xa8\xe2\x80\xa9", "\xf0\x9f\x98\x80\xf4\x8f\xbf\xbf", "\xef\xbb\xbf" "bom", "\xef\xbf\xbf", "{}", "[1,2]",
        "\\u0000", "\\ud800", "index", "data", "member", "'", "</script>", "%s%n", " leading and trailing " };
    const auto k = r.below(12);
    std::string s;
    if (r.enormous || (r.huge && r.chance(10))) {
        r.huge = r.enormous = false;
        count("huge-strings", 1);
        const auto n = static_cast<std::size_t>(r.pick(std::vector<int>{ 65534, 65535, 65536, 65537, 100000, 300000, 2097150, 2097151, 2097152, 2097153 }));
        while (s.size() < n)
            s += n - s.size() > 1000 ? std::string(900, static_cast<char>('a' + s.size() % 23)) : std::string(1, static_cast<char>('a' + s.size() % 26));
    } else if (k < 5)
        s = r.pick(special);
    else if (k < 10 || (k == 11 && !r.big)) {
        const auto n = r.below(12);
        for (std::uint64_t i = 0; i != n; ++i) {
            switch (r.below(6)) {
            case 0:
                appendUtf8(s, static_cast<std::uint32_t>(r.below(0x20)));
                break;
            case 1: {
                auto c = static_cast<std::uint32_t>(r.below(0x110000));
                if (c >= 0xD800 && c < 0xE000)
                    c = 0x20AC;
                appendUtf8(s, c);
                break;
            }
            default:
                s += static_cast<char>(0x20 + r.below(0x5f));
            }
        }
    } else if (k == 10) {
        s = std::string("x\0y", 3) + r.pick(special);
    } else {
        s.assign(static_cast<std::size_t>(r.pick(std::vector<int>{ 126, 127, 128, 129, 255, 256, 257, 1000, 16382, 16383, 16384, 40000 })), 'z');
    }
    if (!r.utf8 && r.chance(15))
        s += static_cast<char>(0x80 + r.below(0x80));
    if (!nul)
        for (auto &c : s)
            if (!c)
                c = '0';
    return s;
}

template <class T> T genInt(Rng &r)
{
    using L = std::numeric_limits<T>;
    switch (r.below(8)) {
    case 0:
        return L::max();
    case 1:
        return L::min();
    case 2:
        return static_cast<T>(r.below(3)) ;
    case 3:
        return static_cast<T>(L::max() - static_cast<T>(r.below(3)));
    case 4: { // powers of two and neighbours
        const auto b = r.below(sizeof(T) * 8);
        return static_cast<T>((std::uint64_t(1) << b) + r.below(3) - 1);
    }
    case 5:
        return static_cast<T>(-static_cast<std::int64_t>(r.below(300)));
    case 6:
        return static_cast<T>(r.below(300));
    default:
        return static_cast<T>(r.next());
    }
}
template <class T> T genFloat(Rng &r)
{
    using L = std::numeric_limits<T>;
    static const double special[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.5, 1e10, 1e-10, 123456789.125, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 3.141592653589793, 9007199254740993.0,
        2147483647.0, 2147483648.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, -9223372036854775808.0, 5e-5, 1.7976931348623155e308, 2.2250738585072014e-308 };
    switch (r.below(8)) {
    case 0:
    case 1: {
        const double d = special[r.below(sizeof(special) / sizeof(*special))];
        if (std::is_same_v<T, float> && (d > 3e38 || (d != 0 && std::fabs(d) < 2e-38)))
            return static_cast<T>(0.5);
        return static_cast<T>(d);
    }
    case 2: {
        const T lims[] = { L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon() };
        return lims[r.below(6)];
    }
    case 3:
        return static_cast<T>(static_cast<std::int64_t>(r.below(2000)) - 1000) / static_cast<T>(8);
    case 4:
        return static_cast<T>(static_cast<std::int64_t>(r.next()) >> r.below(60));
    case 5:
        if (!r.finite) {
            T nf[] = { L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN() };
            if (r.chance(30)) { // NaN with random payload
                if constexpr (sizeof(T) == 4) {
                    const auto b = static_cast<std::uint32_t>(0x7fc00000u | (r.next() & 0x803fffffu));
                    std::memcpy(&nf, &b, 4);
                } else {
                    const auto b = 0x7ff8000000000000u | (r.next() & 0x8007ffffffffffffu);
                    std::memcpy(&nf, &b, 8);
                }
                return nf[0];
            }
            return nf[r.below(4)];
        }
        [[fallthrough]];
    default: {
        T t;
        do {
            if constexpr (sizeof(T) == 4) {
                auto b = static_cast<std::uint32_t>(r.next());
                std::memcpy(&t, &b, 4);
            } else {
                auto b = r.next();
                std::memcpy(&t, &b, 8);
            }
        } while (r.finite && !std::isfinite(t));
        return t;
    }
    }
}

// C: type of the container
template <class C> std::size_t genCount(Rng &r)
{
    if (r.enormous) {
        if constexpr (cat<C>() == Cat::Map) {
            constexpr auto m = cat<typename C::mapped_type>();
            if (m == Cat::Seq || m == Cat::Set || m == Cat::MSet)
                return 1; // the container within the map becomes enormous
        }
        r.enormous = false;
        count("enormous-containers", 1);
        r.budget = 0;
        return static_cast<std::size_t>(r.pick(std::vector<int>{ 65534, 65535, 65536, 65537, 65600, 70000, 100000 }));
    }
    if (r.huge && r.depth <= 3 && r.chance(25)) {
        r.huge = false;
        count("huge-containers", 1);
        r.budget = 0; // no further containers within the elements
        constexpr auto c = cat<C>();
        constexpr auto e = cat<typename C::value_type>();
        if (c == Cat::Seq && (e == Cat::Bool || e == Cat::Int || e == Cat::Flt || e == Cat::Enum))
            return static_cast<std::size_t>(r.pick(std::vector<int>{ 1023, 1024, 16383, 16384, 20000, 32768, 65535, 65536, 70000 }));
        return static_cast<std::size_t>(r.pick(std::vector<int>{ 250, 255, 256, 257, 511, 512, 513, 1000 }));
    }
    if (r.budget <= 0 || r.depth > 5)
        return 0;
    if (r.big && r.depth <= 2 && r.chance(2)) {
        r.budget += 300;
        return static_cast<std::size_t>(r.pick(std::vector<int>{ 126, 127, 128, 129, 130 }));
    }
    switch (r.below(4)) {
    case 0:
        return 0;
    case 1:
        return 1;
    default:
        return 1 + r.below(r.depth > 2 ? 2 : 4);
    }
}

template <class T> void genInto(Rng &r, T &v);
template <class T> T gen(Rng &r)
{
    if constexpr (cat<T>() == Cat::Struct) {
        T t = Desc<T>::make();
        genInto(r, t);
        return t;
    } else {
        T t{};
        genInto(r, t);
        return t;
    }
}
template <class T, class = void> struct CustomGen; // for Cat::Custom: static void into(Rng&, T&), eq, dump
struct DepthGuard {
    Rng &r;
    explicit DepthGuard(Rng &r) : r(r) { ++r.depth; }
    ~DepthGuard() { --r.depth; }
};

// hook to let shared_ptr values share objects (set up per generated value)
template <class T> std::vector<std::shared_ptr<T>> &sharedPool()
{
    static thread_local std::vector<std::shared_ptr<T>> p;
    return p;
}
inline bool &sharingEnabled()
{
    static thread_local bool b = false;
    return b;
}
inline std::vector<void (*)()> &sharedPoolCleaners()
{
    static thread_local std::vector<void (*)()> c;
    return c;
}
inline void clearSharedPools()
{
    for (auto *f : sharedPoolCleaners())
        f();
    sharedPoolCleaners().clear();
}

template <class T> void genInto(Rng &r, T &v)
{
    DepthGuard g(r);
    constexpr auto c = cat<T>();
    --r.budget;
    if constexpr (c == Cat::Bool)
        v = r.chance(50);
    else if constexpr (c == Cat::Int)
        v = genInt<T>(r);
    else if constexpr (c == Cat::Flt)
        v = genFloat<T>(r);
    else if constexpr (c == Cat::Enum)
        v = static_cast<T>(genInt<std::underlying_type_t<T>>(r));
    else if constexpr (c == Cat::Str)
        v = genString(r);
    else if constexpr (c == Cat::CStr) {
        if (r.chance(25))
            v = nullptr;
        else {
            stringPool().push_back(genString(r, false));
            v = stringPool().back().c_str();
        }
    } else if constexpr (c == Cat::SView) {
        if (r.chance(25))
            v = std::string_view();
        else {
            stringPool().push_back(genString(r));
            v = stringPool().back();
        }
    } else if constexpr (c == Cat::Seq) {
        v.clear();
        for (auto n = genCount<T>(r); n; --n)
            v.emplace_back(gen<typename T::value_type>(r));
    } else if constexpr (c == Cat::Set || c == Cat::MSet) {
        v.clear();
        const bool dup = r.chance(40), distinct = r.enormous;
        for (auto n = genCount<T>(r); n; --n) {
            auto e = gen<typename T::value_type>(r);
            if constexpr (std::is_integral_v<typename T::value_type>)
                if (distinct)
                    e = static_cast<typename T::value_type>(n * 7919);
            if (c == Cat::MSet && dup)
                v.insert(e);
            v.insert(std::move(e));
        }
    } else if constexpr (c == Cat::Map || c == Cat::MMap) {
        v.clear();
        using K = typename T::key_type;
        using M = typename T::mapped_type;
        const bool distinct = r.enormous && !std::is_class_v<M>;
        for (auto n = genCount<T>(r); n; --n) {
            const auto enormous = r.enormous;
            r.enormous = false;
            auto k = gen<K>(r);
            r.enormous = enormous;
            if constexpr (std::is_integral_v<K>)
                if (distinct)
                    k = static_cast<K>(n * 7919);
            const auto rep = (c == Cat::MMap && r.chance(40)) ? 2 : 1;
            for (int i = 0; i != rep; ++i)
                v.insert(typename T::value_type(k, gen<M>(r)));
        }
    } else if constexpr (c == Cat::Pair) {
        genInto(r, v.first);
        genInto(r, v.second);
    } else if constexpr (c == Cat::Tuple) {
        std::apply([&](auto &...e) { (genInto(r, e), ...); }, v);
    } else if constexpr (c == Cat::UPtr) {
        using E = typename T::element_type;
        if (r.chance(35) || r.depth > 7 || r.budget <= 0)
            v.reset();
        else
            v.reset(new E(gen<E>(r)));
    } else if constexpr (c == Cat::SPtr) {
        using E = typename T::element_type;
        if (r.chance(30) || r.depth > 7 || r.budget <= 0)
            v.reset();
        else if (sharingEnabled()) {
            auto &pool = sharedPool<E>();
            if (pool.empty())
                sharedPoolCleaners().push_back([] { sharedPool<E>().clear(); });
            if (pool.size() > 1 && r.chance(60))
                v = pool[1 + r.below(pool.size() - 1)];
            else {
                if (pool.empty())
                    pool.push_back(nullptr);
                auto e = std::shared_ptr<E>(new E(gen<E>(r)));
                pool.push_back(e);
                v = std::move(e);
            }
        } else
            v = std::shared_ptr<E>(new E(gen<E>(r)));
    } else if constexpr (c == Cat::Opt) {
        if (r.chance(35))
            v.reset();
        else
            genInto(r, v.emplace());
    } else if constexpr (c == Cat::Var) {
        forAlternative<T>(r.below(std::variant_size_v<T>), [&](auto i) { v.template emplace<i.value>(gen<std::variant_alternative_t<i.value, T>>(r)); });
    } else if constexpr (c == Cat::Mono) {
    } else if constexpr (c == Cat::Struct) {
        Desc<T>::bases([&](auto b) { genInto(r, static_cast<typename decltype(b)::type &>(v)); });
        Desc<T>::fields(v, [&](auto fm, auto &f) {
            if constexpr (!decltype(fm)::isConst)
                genInto(r, f);
        });
    } else {
        CustomGen<T>::into(r, v);
    }
}

// generates a value from a seed (so the same value can be made several times even though it might not be copyable)
template <class T> T genSeed(std::uint64_t seed, bool finite = true, bool utf8 = true, bool big = false)
{
    Rng r(seed);
    r.finite = finite;
    r.utf8 = utf8;
    r.big = big;
    return gen<T>(r);
}

// deep equality; floats are compared bitwise (NaN payloads compare equal)
template <class T> bool same(const T &a, const T &b);
template <class C> bool sameAsMultiset(const C &a, const C &b)
{
    if (a.size() != b.size())
        return false;
    using E = typename C::value_type;
    if constexpr (std::is_integral_v<E>) {
        std::vector<E> x(a.begin(), a.end()), y(b.begin(), b.end());
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        return x == y;
    } else if constexpr (cat<E>() == Cat::Pair)
        if constexpr (std::is_integral_v<std::remove_const_t<typename E::first_type>> && std::is_integral_v<typename E::second_type>) {
            std::vector<std::pair<typename C::key_type, typename E::second_type>> x(a.begin(), a.end()), y(b.begin(), b.end());
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            return x == y;
        }
    std::vector<const typename C::value_type *> rest;
    for (auto &x : b)
        rest.push_back(&x);
    for (auto &x : a) {
        bool found = false;
        for (std::size_t i = 0; i != rest.size(); ++i)
            if (same(x, *rest[i])) {
                rest.erase(rest.begin() + static_cast<std::ptrdiff_t>(i));
                found = true;
                break;
            }
        if (!found)
            return false;
    }
    return true;
}
inline bool &exactNaN() // whether NaNs need to have the same bits
{
    static bool b = false;
    return b;
}
inline std::string &diffNote() // innermost mismatch which made same() return false (informal)
{
    static thread_local std::string s;
    return s;
}
template <class T> bool same(const T &a, const T &b)
{
    constexpr auto c = cat<T>();
    if constexpr (c == Cat::Flt) {
        if ((a != a && b != b && !exactNaN()) || !std::memcmp(&a, &b, sizeof(T)))
            return true;
        char buf[100];
        std::snprintf(buf, sizeof(buf), "%a != %a", static_cast<double>(a), static_cast<double>(b));
        diffNote() = buf;
        return false;
    }
    else if constexpr (c == Cat::CStr)
        return a == b || (a && b && !std::strcmp(a, b));
    else if constexpr (c == Cat::SView)
        return a == b && !a.data() == !b.data();
    else if constexpr (IsUnordered<T>::value)
        return sameAsMultiset(a, b);
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::MSet || c == Cat::Map || c == Cat::MMap) {
        if (a.size() != b.size())
            return false;
        auto i = a.begin();
        for (auto j = b.begin(); j != b.end(); ++i, ++j)
            if (!same(*i, *j))
                return false;
        return true;
    } else if constexpr (c == Cat::Pair)
        return same(a.first, b.first) && same(a.second, b.second);
    else if constexpr (c == Cat::Tuple) {
        bool ok = true;
        forTuple<T>([&](auto i) { ok = ok && same(std::get<i.value>(a), std::get<i.value>(b)); });
        return ok;
    } else if constexpr (c == Cat::UPtr || c == Cat::SPtr || c == Cat::Opt)
        return a && b ? same(*a, *b) : !a == !b;
    else if constexpr (c == Cat::Var) {
        if (a.index() != b.index())
            return false;
        bool ok = true;
        forAlternative<T>(a.index(), [&](auto i) { ok = same(std::get<i.value>(a), std::get<i.value>(b)); });
        return ok;
    } else if constexpr (c == Cat::Mono)
        return true;
    else if constexpr (c == Cat::Struct) {
        bool ok = true;
        Desc<T>::bases([&](auto t) {
            using B = typename decltype(t)::type;
            ok = ok && same(static_cast<const B &>(a), static_cast<const B &>(b));
        });
        std::vector<const void *> fb;
        Desc<T>::fields(b, [&](auto, auto &f) { fb.push_back(&f); });
        std::size_t i = 0;
        Desc<T>::fields(a, [&](auto fm, auto &f) {
            const auto wasOk = ok;
            ok = ok && same(f, *static_cast<const std::remove_reference_t<decltype(f)> *>(fb[i]));
            ++i;
            if (wasOk && !ok)
                diffNote() = std::string(Desc<T>::name) + "." + fm.name + " " + diffNote();
        });
        return ok;
    } else if constexpr (c == Cat::Custom)
        return CustomGen<T>::eq(a, b);
    else
        return a == b;
}

inline void dumpStr(std::string &o, std::string_view s)
{
    o += '"';
    char b[8];
    std::size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 200) {
            std::snprintf(b, sizeof(b), "...");
            o += b;
            o += std::to_string(s.size());
            break;
        }
        if (c < 0x20 || c == '"' || c == '\\' || c >= 0x7f) {
            std::snprintf(b, sizeof(b), "\\x%02x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    o += '"';
}
template <class T> void dump(std::string &o, const T &v)
{
    constexpr auto c = cat<T>();
    if (o.size() > 20000)
        return;
    if constexpr (c == Cat::Bool)
        o += v ? "true" : "false";
    else if constexpr (c == Cat::Int)
        o += std::to_string(v);
    else if constexpr (c == Cat::Enum) {
        o += "E";
        o += std::to_string(static_cast<std::underlying_type_t<T>>(v));
    } else if constexpr (c == Cat::Flt) {
        char b[64];
        std::snprintf(b, sizeof(b), "%.17g", static_cast<double>(v));
        o += b;
    } else if constexpr (c == Cat::Str)
        dumpStr(o, v);
    else if constexpr (c == Cat::CStr)
        v ? dumpStr(o, v) : void(o += "nullptr");
    else if constexpr (c == Cat::SView)
        v.data() ? dumpStr(o, v) : void(o += "nullsv");
    else if constexpr (IsUnordered<T>::value) {
        std::multiset<std::string> sorted; // independent of iteration order
        for (auto &x : v) {
            std::string e;
            dump(e, x);
            sorted.insert(std::move(e));
        }
        o += "[";
        for (auto &x : sorted)
            o += x, o += ",";
        o += "]";
    }
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::MSet || c == Cat::Map || c == Cat::MMap) {
        o += "[";
        for (auto &x : v)
            dump(o, x), o += ",";
        o += "]";
    } else if constexpr (c == Cat::Pair) {
        o += "(";
        dump(o, v.first);
        o += ",";
        dump(o, v.second);
        o += ")";
    } else if constexpr (c == Cat::Tuple) {
        o += "(";
        std::apply([&](auto &...e) { ((dump(o, e), o += ","), ...); }, v);
        o += ")";
    } else if constexpr (c == Cat::UPtr || c == Cat::SPtr || c == Cat::Opt) {
        if (v)
            o += "*", dump(o, *v);
        else
            o += "null";
    } else if constexpr (c == Cat::Var) {
        o += "v" + std::to_string(v.index()) + ":";
        forAlternative<T>(v.index(), [&](auto i) { dump(o, std::get<i.value>(v)); });
    } else if constexpr (c == Cat::Mono)
        o += "mono";
    else if constexpr (c == Cat::Struct) {
        o += "{";
        Desc<T>::bases([&](auto t) {
            dump(o, static_cast<const typename decltype(t)::type &>(v));
            o += ",";
        });
        Desc<T>::fields(v, [&](auto fm, auto &f) {
            o += fm.name;
            o += "=";
            dump(o, f);
            o += ",";
        });
        o += "}";
    } else
        CustomGen<T>::dump(o, v);
}
template <class T> std::string dumped(const T &v)
{
    std::string o;
    dump(o, v);
    return o;
}

} // namespace vh
