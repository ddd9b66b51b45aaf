// C03: deserializing arbitrary bytes
#include "../vh/jsoncheck.h"
namespace vhcheck {
inline std::string hostileBytes(Rng &r, std::string s)
{
    static const std::vector<std::string> chunks = { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud83d", "\\udc00", "null", "nul", "true", "tru", "false", "0", "-", ".", "e", "E+", "1e999", "-1e999", "01", "1.",
        "//", "/**/", "\t", "\n", "\v", " ", "'", "NaN", "Infinity", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xef\xbb\xbf", "\x7f", "\x01", "{}", "[]", "[[]]", "\"\"", "{\"\":0}", "1e308", "123456789012345678901234567890",
        "0.1", "-0", "+1", ".5", "0x10", "1E5", "\"\\x\"", "\"\\u12\"", "\"\\u0000\"" };
    for (auto n = 1 + r.below(3); n; --n) {
        const auto at = static_cast<std::size_t>(r.below(s.size() + 1));
        switch (r.below(9)) {
        case 0:
            s.resize(at);
            break;
        case 1:
            if (at < s.size())
                s[at] = static_cast<char>(s[at] ^ (1 << r.below(8)));
            break;
        case 2:
            if (at < s.size())
                s[at] = static_cast<char>(r.below(256));
            break;
        case 3:
            s.erase(at, r.below(4));
            break;
        case 4: {
            const auto from = static_cast<std::size_t>(r.below(s.size() + 1));
            s.insert(at, s.substr(from, r.below(20)));
            break;
        }
        case 5:
            s.insert(at, std::string(1, '\0'));
            break;
        case 6:
            if (at < s.size())
                s.erase(0, at);
            break;
        default:
            s.insert(at, r.pick(chunks));
        }
    }
    return s;
}
// documents which are JSON except for one construct some parsers accept as an extension
inline std::string almostJson(Rng &r, J d)
{
    static const std::vector<std::string> tokens = { "NaN", "-NaN", "nan", "Infinity", "-Infinity", "Inf", "-Inf", "inf", "+1", ".5", "-.5", "1.", "1.e5", "01", "-01", "0x10", "1e", "1e+", "--1", "1_000", "1u", "1.5f", "'a'", "''", "`a`", "True",
        "TRUE", "False", "None", "NULL", "undefined", "nullx", "truefalse", "a", "\"\\'\"", "\"\\x41\"", "\"\\v\"", "\"\\a\"", "\"\\0\"", "\"\\u{41}\"", "\"\\U0041\"", "\"a\tb\"", "\"a\nb\"", "\"a\\\nb\"", "\"a\" \"b\"", "\"a\"+\"b\"", "1,", ",1",
        "1,,1", "1 1", "[1,]", "[,1]", "[,]", "[1 2]", "[1;2]", "{\"a\":1,}", "{,}", "{\"a\" 1}", "{\"a\"=1}", "{\"a\"}", "{\"a\",1}", "{a:1}", "{'a':1}", "{1:1}", "{\"a\":}", "{\"a\":1 \"b\":2}", "(1)", "[1}", "{\"a\":1]", "/**/1", "1/**/", "1//x\n", "//x\n1",
        "#x\n1", "1;", "\v1", "\f1", "\xc2\xa0" "1", "\xe2\x80\xa8" "1", "\xef\xbb\xbf" "1", "", "[1,2", "\"a", "\"a\\", "\"a\\\"" };
    static const std::vector<std::string> around = { "/**/", "/* x */", "//x\n", "//", "#x\n", ",", ";", "x", "{}", "[]", "1", "null", "}", "]", "\v", "\xc2\xa0", "\x1a", "\"\"", ")]}'\n", std::string(1, '\0') };
    if (r.chance(25)) {
        const auto s = printed(d, r.chance(50) ? &r : nullptr), x = r.pick(around);
        count("extensions around documents");
        return r.chance(50) ? x + s : s + x;
    }
    std::vector<J *> nodes;
    collect(d, nodes);
    auto *const n = r.pick(nodes);
    *n = J();
    n->k = J::Num;
    n->s = r.pick(tokens);
    count("extensions within documents");
    return printed(d, r.chance(50) ? &r : nullptr);
}
inline std::string randomBytes(Rng &r)
{
    static const char alphabet[] = "{}[]\",:\\/bfnrtu0123456789+-.eE truefalsn\n\t\xc3\xa4";
    std::string s;
    for (auto n = r.below(40); n; --n)
        s += r.chance(8) ? static_cast<char>(r.below(256)) : alphabet[r.below(sizeof(alphabet) - 1)];
    return s;
}
inline bool hugeLiteral(const J &j) // literals with hundreds of digits might be rounded differently
{
    if (j.k == J::Num && j.s.size() > 250)
        return true;
    for (auto &x : j.a)
        if (hugeLiteral(x))
            return true;
    for (auto &m : j.o)
        if (hugeLiteral(m.second))
            return true;
    return false;
}
template <class T> void hostile(Rng &r, const std::string &textToParse, bool knownDeep = false, bool deepValid = false)
{
    auto &rep = report();
    rep.detail = "text (" + std::to_string(textToParse.size()) + " bytes) " + textToParse.substr(0, 2000);
    evaluated(hashStr(textToParse), knownDeep ? std::string() : textToParse);
    JsonParse p;
    bool decided = true, valid = deepValid;
    if (!knownDeep) {
        valid = p.parse(textToParse);
        decided = p.decided();
    }
    const auto exact = std::make_unique<Exact>(textToParse);
    RR::JsonDeserializationErrors errors;
    const auto a = observe<T>([&] { return JR::fromJson<T>(exact->p.get(), exact->n, &errors); }, &errors);
    const auto b = observe<T>([&] { return JR::fromJson<T>(exact->p.get(), exact->n); }, nullptr);
    if (a.error || b.error)
        return violation("semantic-error-thrown", "semantic error thrown though throwOn is None: " + textToParse);
    count(a.parseError ? "rejected" : "accepted");
    if (!agree(a, b, false))
        violation("differs-without-errors-object", "with errors object: " + text(a) + ", without: " + text(b) + " for " + textToParse);
    if (a.parseError && (a.code == 0 || a.offset > textToParse.size()))
        violation("parse-result", "parse result " + text(a) + " makes no sense for text of " + std::to_string(textToParse.size()) + " bytes " + textToParse);
    if (decided && a.parseError != !valid)
        violation(valid ? "valid-rejected" : "invalid-accepted", text(a) + " but the text is " + (valid ? "valid" : "invalid") + ": " + textToParse);
    if ((decided || p.overflow) && valid && !a.parseError && !knownDeep && !p.dup && !p.badUtf8 && !p.surrogate && !p.nulByte && !p.bom && !p.boundary && !hugeLiteral(p.value)) {
        PullCtx c;
        const T expected = refFromJson<T>(p.value, c);
        if (!same(expected, *a.value))
            violation("value", "got " + text(a) + " expected " + dumped(expected) + " for " + textToParse);
    }
    // other overloads
    if (r.chance(30)) {
        const auto s = observe<T>([&] { return JR::fromJson<T>(textToParse); }, nullptr);
        if (!agree(b, s, false))
            violation("overload", "std::string overload: " + text(s) + ", pointer and length: " + text(b) + " for " + textToParse);
        if (textToParse.find('\0') == std::string::npos) {
            const auto z = std::make_unique<Exact>(std::string_view(textToParse.c_str(), textToParse.size() + 1));
            const auto n = observe<T>([&] { return JR::fromJson<T>(static_cast<const char *>(z->p.get())); }, nullptr);
            if (!agree(b, n, false))
                violation("overload", "null-terminated overload: " + text(n) + ", pointer and length: " + text(b) + " for " + textToParse);
        }
    }
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 30 + static_cast<int>(i % 5) * 20;
        r.utf8 = r.chance(70);
        std::string s;
        switch (i % 9) {
        case 0:
            s = randomBytes(r);
            break;
        case 1: { // every prefix is tried over time
            const auto full = printed(genDoc<T>(r, 1), &r);
            s = full.substr(0, static_cast<std::size_t>(r.below(full.size() + 1)));
            break;
        }
        case 2:
            s = printed(genJ(r), &r);
            break;
        case 3: {
            J d = genDoc<T>(r, 4);
            if (r.chance(30)) { // numbers close to or beyond the range of double
                static const std::vector<std::string> lits = { "1.8e308", "-1.8e308", "3.4e308", "9e308", "1e309", "1e400", "1.7e308" };
                std::vector<J *> nodes;
                collect(d, nodes);
                for (auto *n : nodes)
                    if (n->k == J::Num && r.chance(50))
                        n->s = r.pick(lits), count("number close to or beyond range");
            }
            s = printed(d, &r);
            break;
        }
        case 8:
            s = almostJson(r, genDoc<T>(r, 2));
            break;
        default:
            s = hostileBytes(r, printed(genDoc<T>(r, 2), i % 2 ? &r : nullptr));
        }
        hostile<T>(r, s);
    });
    // all truncations of one document
    scenario(std::string(name) + " truncations", std::max<std::uint64_t>(1, report().cases / 200), [](Rng &r, std::uint64_t) {
        r.budget = 40;
        auto full = printed(genDoc<T>(r, 1));
        if (full.size() > 400)
            full.resize(400);
        for (std::size_t n = 0; n <= full.size(); ++n)
            hostile<T>(r, full.substr(0, n));
    });
    // deep nesting of ignored content
    if constexpr (cat<T>() == Cat::Struct)
        scenario(std::string(name) + " deep", 4, [](Rng &r, std::uint64_t i) {
            const std::size_t depth = 150000;
            std::string open, close;
            for (std::size_t d = 0; d != depth; ++d)
                if (i % 2) {
                    open += '[';
                    close += ']';
                } else {
                    open += "{\"a\":";
                    close += '}';
                }
            const bool complete = i <= 2;
            hostile<T>(r, "{\"no such member\":" + open + "1" + (complete ? close + "}" : std::string()), true, complete);
            count("deep");
        });
}
inline void overflowProbe()
{
    // numbers exceeding the range of double by far in a notation not rejected by RapidJSON
    for (const char *lit : { "18000000000e298", "9.5e308" })
        scenario(std::string("overflow ") + lit, 1, [&](Rng &, std::uint64_t) {
            evaluated(hashStr(lit));
            RR::JsonDeserializationErrors errors;
            const auto o = observe<std::map<std::string, double>>([&] { return JR::fromJson<std::map<std::string, double>>("{\"x\":" + std::string(lit) + "}", &errors); }, &errors);
            if (!o.parseError && o.errors.empty() && !std::isinf(o.value->at("x")))
                violation("number-overflow-garbage", std::string(lit) + " is read as " + text(o));
        });
}
template <class T> void top(const char *name) { type<T>(name); }
} // namespace vhcheck
