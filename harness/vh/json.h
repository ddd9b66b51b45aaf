// Independent JSON model: AST, strict RFC 8259 parser with diagnosis of implementation-defined areas, randomised printer.
#pragma once
#include "core.h"
#include <cstdlib>
#include <algorithm>

namespace vh {

struct J {
    enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
    bool b = false;
    std::string s; // string content or literal of number
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J();
    J(const J &);
    J(J &&) noexcept;
    J &operator=(const J &);
    J &operator=(J &&) noexcept;
    ~J();
    static J null() { return J(); }
    static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
    static J str(std::string v) { J j; j.k = Str; j.s = std::move(v); return j; }
    static J num(std::string lit) { J j; j.k = Num; j.s = std::move(lit); return j; }
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    const J *find(std::string_view name) const
    {
        for (auto &m : o)
            if (m.first == name)
                return &m.second;
        return nullptr;
    }
};
inline J::J() = default;
inline J::J(const J &) = default;
inline J::J(J &&) noexcept = default;
inline J &J::operator=(const J &) = default;
inline J &J::operator=(J &&) noexcept = default;
inline J::~J() = default;

// classification of a number literal as done by any implementation distinguishing 64-bit integers and doubles
struct NumVal {
    enum K { U, I, D } k; // non-negative integer fitting uint64, negative integer fitting int64, double
    std::uint64_t u = 0;
    std::int64_t i = 0;
    double d = 0; // always set
    bool isUint64() const { return k == U; }
    bool isInt64() const { return k == I || (k == U && u <= 0x7fffffffffffffffull); }
    std::int64_t asInt64() const { return k == I ? i : static_cast<std::int64_t>(u); }
};
inline NumVal classify(const std::string &lit)
{
    NumVal n;
    n.d = std::strtod(lit.c_str(), nullptr);
    n.k = NumVal::D;
    if (lit.find_first_of(".eE") != std::string::npos)
        return n;
    const bool neg = lit[0] == '-';
    std::uint64_t v = 0;
    for (std::size_t p = neg; p < lit.size(); ++p) {
        const unsigned dgt = static_cast<unsigned>(lit[p] - '0');
        if (v > (UINT64_MAX - dgt) / 10)
            return n;
        v = v * 10 + dgt;
    }
    if (!neg) {
        n.k = NumVal::U;
        n.u = v;
    } else if (v == 0) {
        n.k = NumVal::U; // "-0"
        n.d = 0.0;
    } else if (v <= 0x8000000000000000ull) {
        n.k = NumVal::I;
        n.i = static_cast<std::int64_t>(~v + 1);
    }
    return n;
}
inline bool sameNum(const std::string &a, const std::string &b)
{
    const auto x = classify(a), y = classify(b);
    if (x.k == NumVal::D && y.k == NumVal::D)
        return !std::memcmp(&x.d, &y.d, sizeof(double));
    if (x.k == NumVal::D || y.k == NumVal::D) {
        const auto ld = [](const NumVal &n) {
            return n.k == NumVal::U ? static_cast<long double>(n.u) : n.k == NumVal::I ? static_cast<long double>(n.i) : static_cast<long double>(n.d);
        };
        return ld(x) == ld(y) && std::signbit(ld(x)) == std::signbit(ld(y));
    }
    return x.k == y.k && x.u == y.u && x.i == y.i;
}

inline bool eq(const J &a, const J &b, std::string *why = nullptr, const std::string &path = "$")
{
    const auto fail = [&](const std::string &m) {
        if (why && why->empty())
            *why = path + ": " + m;
        return false;
    };
    if (a.k != b.k)
        return fail("kind " + std::to_string(a.k) + " != " + std::to_string(b.k));
    switch (a.k) {
    case J::Null:
        return true;
    case J::Bool:
        return a.b == b.b || fail("bool differs");
    case J::Num:
        return sameNum(a.s, b.s) || fail("number " + a.s + " != " + b.s);
    case J::Str:
        if (a.s != b.s) {
            std::string d;
            dumpStr(d, a.s);
            d += " != ";
            dumpStr(d, b.s);
            return fail("string " + d);
        }
        return true;
    case J::Arr:
        if (a.a.size() != b.a.size())
            return fail("array size " + std::to_string(a.a.size()) + " != " + std::to_string(b.a.size()));
        for (std::size_t i = 0; i != a.a.size(); ++i)
            if (!eq(a.a[i], b.a[i], why, path + "[" + std::to_string(i) + "]"))
                return false;
        return true;
    case J::Obj:
        if (a.o.size() != b.o.size()) {
            std::string d = "object size " + std::to_string(a.o.size()) + " != " + std::to_string(b.o.size()) + ":";
            for (auto &m : a.o)
                d += " " + m.first;
            d += " !=";
            for (auto &m : b.o)
                d += " " + m.first;
            return fail(d);
        }
        { // note: assumes unique names
            std::map<std::string_view, const J *> mb;
            for (auto &m : b.o)
                mb[m.first] = &m.second;
            if (mb.size() != b.o.size())
                return fail("duplicate member names");
            for (auto &m : a.o) {
                auto it = mb.find(m.first);
                if (it == mb.end())
                    return fail("missing member " + m.first);
                if (!eq(m.second, *it->second, why, path + "." + m.first))
                    return false;
            }
        }
        return true;
    }
    return false;
}

struct JsonParse {
    bool ok = false;
    // areas where implementations legitimately differ
    bool badUtf8 = false, surrogate = false, nulByte = false, hugeNumber = false, bom = false, dup = false;
    bool overflow = false; // number beyond double range
    bool boundary = false; // number about the maximum (RapidJSON is not reliable there)
    std::size_t depth = 0, maxDepth = 0;
    J value;
    const char *p = nullptr, *e = nullptr;

    bool parse(std::string_view text)
    {
        p = text.data();
        e = p + text.size();
        nulByte = text.find('\0') != std::string_view::npos;
        if (text.substr(0, 3) == "\xef\xbb\xbf") {
            bom = true;
            p += 3;
        }
        ws();
        ok = val(value);
        ws();
        ok = ok && p == e;
        return ok;
    }
    // whether accept/reject of the text is unambiguous
    bool decided() const { return !(overflow || badUtf8 || surrogate || nulByte || hugeNumber || bom); }

private:
    void ws()
    {
        while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r'))
            ++p;
    }
    bool lit(const char *l)
    {
        for (; *l; ++l, ++p)
            if (p == e || *p != *l)
                return false;
        return true;
    }
    bool val(J &v)
    {
        if (p == e || depth > 2000)
            return false;
        switch (*p) {
        case 'n':
            v.k = J::Null;
            return lit("null");
        case 't':
            v = J::boolean(true);
            return lit("true");
        case 'f':
            v = J::boolean(false);
            return lit("false");
        case '"':
            v.k = J::Str;
            return str(v.s);
        case '[':
            v.k = J::Arr;
            ++p;
            ws();
            if (p != e && *p == ']')
                return ++p, true;
            maxDepth = std::max(maxDepth, ++depth);
            for (;;) {
                v.a.emplace_back();
                ws();
                if (!val(v.a.back()))
                    return false;
                ws();
                if (p == e)
                    return false;
                if (*p == ']')
                    return ++p, --depth, true;
                if (*p++ != ',')
                    return false;
            }
        case '{':
            v.k = J::Obj;
            ++p;
            ws();
            if (p != e && *p == '}')
                return ++p, true;
            maxDepth = std::max(maxDepth, ++depth);
            for (;;) {
                v.o.emplace_back();
                ws();
                if (p == e || *p != '"' || !str(v.o.back().first))
                    return false;
                ws();
                if (p == e || *p++ != ':')
                    return false;
                ws();
                if (!val(v.o.back().second))
                    return false;
                ws();
                if (p == e)
                    return false;
                if (*p == '}') {
                    std::set<std::string_view> names;
                    for (auto &m : v.o)
                        if (!names.insert(m.first).second)
                            dup = true;
                    return ++p, --depth, true;
                }
                if (*p++ != ',')
                    return false;
            }
        default:
            return num(v);
        }
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    bool num(J &v)
    {
        const char *b = p;
        if (p != e && *p == '-')
            ++p;
        if (p == e || !dig(*p))
            return false;
        if (*p == '0')
            ++p;
        else
            while (p != e && dig(*p))
                ++p;
        if (p != e && *p == '.') {
            ++p;
            if (p == e || !dig(*p))
                return false;
            while (p != e && dig(*p))
                ++p;
        }
        if (p != e && (*p == 'e' || *p == 'E')) {
            ++p;
            if (p != e && (*p == '+' || *p == '-'))
                ++p;
            if (p == e || !dig(*p))
                return false;
            while (p != e && dig(*p))
                ++p;
        }
        v.k = J::Num;
        v.s.assign(b, p);
        if (v.s.size() > 250)
            hugeNumber = true;
        const double d = std::strtod(v.s.c_str(), nullptr);
        if (std::isinf(d)) {
            overflow = true; // beyond double range: might be rejected by parsers
            const auto ld = std::fabs(std::strtold(v.s.c_str(), nullptr));
            if (ld < 1.7999e308L || ld > 3.5e308L)
                boundary = true;
            return true;
        }
        if (std::fabs(d) > 1.797e308)
            hugeNumber = boundary = true;
        return true;
    }
    int hex4()
    {
        int r = 0;
        for (int i = 0; i != 4; ++i, ++p) {
            if (p == e)
                return -1;
            const char c = *p;
            r = r * 16 + (dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -100000000);
            if (r < 0)
                return -1;
        }
        return r;
    }
    bool str(std::string &s)
    {
        s.clear();
        ++p;
        for (;;) {
            if (p == e)
                return false;
            const unsigned char c = static_cast<unsigned char>(*p);
            if (c == '"')
                return ++p, true;
            if (c < 0x20)
                return false;
            if (c == '\\') {
                if (++p == e)
                    return false;
                switch (*p++) {
                case '"': s += '"'; break;
                case '\\': s += '\\'; break;
                case '/': s += '/'; break;
                case 'b': s += '\b'; break;
                case 'f': s += '\f'; break;
                case 'n': s += '\n'; break;
                case 'r': s += '\r'; break;
                case 't': s += '\t'; break;
                case 'u': {
                    int u = hex4();
                    if (u < 0)
                        return false;
                    if (u >= 0xD800 && u <= 0xDBFF) {
                        if (e - p >= 2 && p[0] == '\\' && p[1] == 'u') {
                            p += 2;
                            const int l = hex4();
                            if (l < 0)
                                return false;
                            if (l < 0xDC00 || l > 0xDFFF) {
                                surrogate = true;
                            } else
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                        } else
                            surrogate = true;
                    } else if (u >= 0xDC00 && u <= 0xDFFF)
                        surrogate = true;
                    appendUtf8(s, static_cast<std::uint32_t>(u));
                    break;
                }
                default:
                    return false;
                }
                continue;
            }
            if (c < 0x80) {
                s += *p++;
                continue;
            }
            // UTF-8 validation
            int n = c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : 0;
            bool good = n && e - p > n;
            for (int i = 1; good && i <= n; ++i)
                good = (static_cast<unsigned char>(p[i]) & 0xC0) == 0x80;
            if (good) {
                const auto c1 = static_cast<unsigned char>(p[1]);
                good = !((c == 0xE0 && c1 < 0xA0) || (c == 0xED && c1 >= 0xA0) || (c == 0xF0 && c1 < 0x90) || (c == 0xF4 && c1 >= 0x90));
            }
            if (!good) {
                badUtf8 = true;
                s += *p++;
                continue;
            }
            s.append(p, static_cast<std::size_t>(n) + 1);
            p += n + 1;
        }
    }
};

// prints with random (equivalent) notation; level 0: compact canonical
inline void printStr(std::string &o, const std::string &s, Rng *r)
{
    static const char *hex = "0123456789abcdef", *HEX = "0123456789ABCDEF";
    const auto u16 = [&](unsigned u) {
        const char *h = r && r->chance(50) ? HEX : hex;
        o += "\\u";
        o += h[(u >> 12) & 15];
        o += h[(u >> 8) & 15];
        o += h[(u >> 4) & 15];
        o += h[u & 15];
    };
    o += '"';
    for (std::size_t i = 0; i < s.size(); ++i) {
        const auto c = static_cast<unsigned char>(s[i]);
        if (c >= 0x80 && r && r->chance(30)) { // escape a multi-byte character
            const unsigned n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
            if (i + n < s.size()) {
                std::uint32_t cp = c & (0x3F >> n);
                for (unsigned k = 1; k <= n; ++k)
                    cp = (cp << 6) | (static_cast<unsigned char>(s[i + k]) & 0x3F);
                std::string check;
                appendUtf8(check, cp);
                if (s.compare(i, n + 1, check) == 0 && cp < 0x110000 && !(cp >= 0xD800 && cp < 0xE000)) {
                    if (cp >= 0x10000) {
                        u16(0xD800 + ((cp - 0x10000) >> 10));
                        u16(0xDC00 + ((cp - 0x10000) & 0x3FF));
                    } else
                        u16(cp);
                    i += n;
                    continue;
                }
            }
        }
        if (c == '"' || c == '\\') {
            if (r && r->chance(20))
                u16(c);
            else
                (o += '\\') += static_cast<char>(c);
        } else if (c < 0x20) {
            const char *sh = c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
            if (sh && !(r && r->chance(20)))
                o += sh;
            else
                u16(c);
        } else if (c == '/' && r && r->chance(30))
            o += "\\/";
        else if (c < 0x80 && r && r->chance(3))
            u16(c);
        else
            o += static_cast<char>(c);
    }
    o += '"';
}
inline void print(std::string &o, const J &j, Rng *r)
{
    const auto ws = [&] {
        if (r && r->chance(8))
            for (auto n = r->below(3); n; --n)
                o += " \t\n\r"[r->below(4)];
    };
    ws();
    switch (j.k) {
    case J::Null:
        o += "null";
        break;
    case J::Bool:
        o += j.b ? "true" : "false";
        break;
    case J::Num:
        o += j.s;
        break;
    case J::Str:
        printStr(o, j.s, r);
        break;
    case J::Arr: {
        o += '[';
        bool first = true;
        for (auto &x : j.a) {
            if (!first)
                o += ',';
            first = false;
            print(o, x, r);
        }
        ws();
        o += ']';
        break;
    }
    case J::Obj: {
        o += '{';
        bool first = true;
        for (auto &m : j.o) {
            if (!first)
                o += ',';
            first = false;
            ws();
            printStr(o, m.first, r);
            ws();
            o += ':';
            print(o, m.second, r);
        }
        ws();
        o += '}';
    }
    }
    ws();
}
inline std::string printed(const J &j, Rng *r = nullptr)
{
    std::string o;
    print(o, j, r);
    return o;
}

// number literals
inline std::string intLit(std::uint64_t u) { return std::to_string(u); }
inline std::string intLit(std::int64_t i) { return std::to_string(i); }
inline std::string dblLit(double d)
{
    char b[48];
    std::snprintf(b, sizeof(b), "%.17g", d);
    if (!std::strpbrk(b, ".eE"))
        std::strcat(b, ".0");
    return b;
}
inline std::string genNumLit(Rng &r)
{
    static const std::vector<std::string> special = { "0", "-0", "-0.0", "0.0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "-1.5", "1.0", "1e2", "1E+2", "25e-1", "0.9999",
        "-0.9999", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967295.5", "2147483647.5", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e19", "1.8e19", "9.3e18", "-9.3e18", "1e300",
        "-1e300", "3.4028235e38", "3.5e38", "1e39", "1e-300", "5e-324", "1e-400", "0.1", "123456789012345678901234567890", "0.30000000000000004", "1.7976931348623157e308",
        "9007199254740993", "2.2250738585072011e-308", "255.99", "127.9", "-128.9", "256.0", "3", "2", "4", "5", "7" };
    switch (r.below(5)) {
    case 0:
        return intLit(genInt<std::int64_t>(r));
    case 1:
        return intLit(genInt<std::uint64_t>(r));
    case 2:
        return dblLit(genFloat<double>(r));
    case 3:
        return intLit(static_cast<std::int64_t>(r.below(300)) - 20);
    default:
        return r.pick(special);
    }
}
inline J genJ(Rng &r, int depth = 0)
{
    switch (r.below(depth > 3 ? 5 : 7)) {
    case 0:
        return J::null();
    case 1:
        return J::boolean(r.chance(50));
    case 2:
    case 3:
        return J::num(genNumLit(r));
    case 4:
        return J::str(genString(r));
    case 5: {
        auto j = J::arr();
        for (auto n = r.below(4); n; --n)
            j.a.push_back(genJ(r, depth + 1));
        return j;
    }
    default: {
        auto j = J::obj();
        std::set<std::string> names;
        for (auto n = r.below(4); n; --n) {
            auto name = genString(r);
            if (names.insert(name).second)
                j.o.emplace_back(name, genJ(r, depth + 1));
        }
        return j;
    }
    }
}

// random structural mutation; keeps member names unique
inline void collect(J &j, std::vector<J *> &nodes)
{
    nodes.push_back(&j);
    for (auto &x : j.a)
        collect(x, nodes);
    for (auto &m : j.o)
        collect(m.second, nodes);
}
inline void mutate(J &root, Rng &r)
{
    std::vector<J *> nodes;
    collect(root, nodes);
    // prefer inner nodes over the root
    J &n = *nodes[nodes.size() > 1 && !r.chance(3) ? 1 + r.below(nodes.size() - 1) : 0];
    const auto k = r.below(10);
    if (n.k == J::Arr && k < 6) {
        switch (r.below(5)) {
        case 0:
            if (!n.a.empty()) {
                n.a.erase(n.a.begin() + static_cast<std::ptrdiff_t>(r.below(n.a.size())));
                return;
            }
            break;
        case 1:
            if (!n.a.empty()) { // duplicate element
                const J c = n.a[r.below(n.a.size())];
                n.a.insert(n.a.begin() + static_cast<std::ptrdiff_t>(r.below(n.a.size() + 1)), c);
                return;
            }
            break;
        case 2:
            n.a.insert(n.a.begin() + static_cast<std::ptrdiff_t>(r.below(n.a.size() + 1)), genJ(r, 2));
            return;
        case 3:
            if (n.a.size() > 1) {
                std::swap(n.a[r.below(n.a.size())], n.a[r.below(n.a.size())]);
                return;
            }
            break;
        default:
            n.a.clear();
            return;
        }
    }
    if (n.k == J::Obj && k < 6) {
        switch (r.below(5)) {
        case 0:
        case 1:
            if (!n.o.empty()) {
                n.o.erase(n.o.begin() + static_cast<std::ptrdiff_t>(r.below(n.o.size())));
                return;
            }
            break;
        case 2: {
            const auto name = r.chance(30) ? std::string("index") : r.chance(30) ? std::string("data") : genString(r);
            if (!n.find(name))
                n.o.insert(n.o.begin() + static_cast<std::ptrdiff_t>(r.below(n.o.size() + 1)), std::make_pair(name, genJ(r, 2)));
            return;
        }
        case 3:
            if (n.o.size() > 1) {
                std::swap(n.o[r.below(n.o.size())], n.o[r.below(n.o.size())]);
                return;
            }
            break;
        default:
            if (!n.o.empty()) { // misspell or add a further member with a similar name
                const auto pos = r.below(n.o.size());
                auto name = n.o[pos].first;
                switch (r.below(6)) {
                case 0:
                    if (!name.empty() && (static_cast<unsigned char>(name.back()) < 0x80)) {
                        name.pop_back();
                        break;
                    }
                    [[fallthrough]];
                case 1:
                    name += 'x';
                    break;
                case 2:
                    name += '\0';
                    break;
                case 3:
                    for (auto &c : name)
                        c = c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
                    break;
                case 4:
                    name = ' ' + name;
                    break;
                default:
                    name.clear();
                }
                if (n.find(name))
                    return;
                if (r.chance(50))
                    n.o.insert(n.o.begin() + static_cast<std::ptrdiff_t>(r.below(n.o.size() + 1)), std::make_pair(name, r.chance(50) ? n.o[pos].second : genJ(r, 2)));
                else
                    n.o[pos].first = name;
                return;
            }
        }
    }
    if (n.k == J::Num && k < 5) {
        n.s = genNumLit(r);
        return;
    }
    if (k < 7 && nodes.size() > 2) { // replace by a copy of another node
        const J c = *nodes[r.below(nodes.size())];
        n = c;
        return;
    }
    n = genJ(r, 2);
}
} // namespace vh
