// C02: JSON output valid and according to the mapping
#include "../vh/jsoncheck.h"
#include <array>
#include <forward_list>
#include <valarray>
namespace vhcheck {
template <class T> void output(Rng &r, std::uint64_t i)
{
    r.big = i % 8 == 0;
    r.huge = i == 17 || i % 64 == 57;
    r.budget = i % 8 == 0 ? 2000 : 60 + static_cast<int>(i % 5) * 40;
    T v = gen<T>(r);
    auto &rep = report();
    rep.detail = "value " + dumped(v);
    const auto expected = refPush(v);
    const auto text = toJsonText(v);
    rep.detail = "text " + text;
    evaluated(text.size() > 2 ? hashStr(text) : 0, text);
    JsonParse p;
    if (!p.parse(text))
        return violation("invalid-json", "not valid JSON: " + text + " for value " + dumped(v));
    if (p.dup)
        violation("duplicate-member", "object with duplicate member names: " + text);
    if (p.badUtf8 || p.surrogate || p.nulByte)
        violation("invalid-json", "text contains invalid UTF-8, surrogates or raw null bytes: " + text);
    std::string why;
    if (!eq(p.value, expected, &why))
        violation("mapping", "text does not denote the value: " + why + "; text " + text + " expected " + printed(expected));
    const auto doc = JR::toJsonDocument(v);
    why.clear();
    if (!eq(fromRapid(doc), expected, &why))
        violation("mapping-document", "toJsonDocument() does not denote the value: " + why + "; expected " + printed(expected));
    const auto again = toJsonText(v);
    if (again != text)
        violation("not-deterministic", "serializing twice gives " + text + " and " + again);
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { output<T>(r, i); });
}
// types which can only be serialized
template <class C> J asArray(const C &c)
{
    auto j = J::arr();
    for (const auto &e : c)
        j.a.push_back(refPush(std::decay_t<decltype(e)>(e)));
    return j;
}
inline void serializeOnly()
{
    scenario("serialize-only", report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 100;
        const auto check = [&](const char *what, const auto &v, const J &expected) {
            const auto b = JR::toJson(v);
            const std::string text(b.GetString(), b.GetSize());
            report().detail = std::string(what) + " " + text;
            evaluated(hashStr(text), text);
            count("serialize-only");
            JsonParse p;
            std::string why;
            if (!p.parse(text))
                violation("invalid-json", std::string(what) + " is serialized as invalid JSON: " + text);
            else if (!eq(p.value, expected, &why))
                violation("mapping", std::string(what) + " is serialized as " + text + " instead of " + printed(expected) + ": " + why);
        };
        stringPool().clear();
        const auto ints = gen<std::vector<int>>(r);
        const auto texts = gen<std::vector<std::string>>(r);
        const auto lists = gen<std::vector<std::vector<std::string>>>(r);
        check("forward_list<int>", std::forward_list<int>(ints.begin(), ints.end()), refPush(ints));
        check("forward_list<string>", std::forward_list<std::string>(texts.begin(), texts.end()), refPush(texts));
        check("vector<forward_list<vector<string>>>", std::vector<std::forward_list<std::vector<std::string>>>(2, std::forward_list<std::vector<std::string>>(lists.begin(), lists.end())), [&] {
            auto j = J::arr();
            j.a.resize(2, refPush(lists));
            return j;
        }());
        std::array<double, 3> doubles;
        for (auto &d : doubles)
            d = genFloat<double>(r);
        check("array<double, 3>", doubles, asArray(doubles));
        check("array<int, 0>", std::array<int, 0>(), J::arr());
        check("valarray<int>", std::valarray<int>(ints.data(), ints.size()), refPush(ints));
        check("vector<string_view>", std::vector<std::string_view>(texts.begin(), texts.end()), refPush(texts));
        check("list<string_view>", std::list<std::string_view>(texts.begin(), texts.end()), refPush(texts));
        std::map<std::string_view, int> map;
        auto expected = J::obj();
        for (std::size_t k = 0; k != texts.size() && k != ints.size(); ++k)
            map[texts[k]] = ints[k];
        for (const auto &m : map)
            expected.o.emplace_back(std::string(m.first), refPush(m.second));
        check("map<string_view, int>", map, expected);
        const auto s = genString(r, i % 2);
        check("string_view", std::string_view(s), J::str(s));
        if (s.find('\0') == std::string::npos)
            check("C-string", s.c_str(), J::str(s));
        check("literal", "some\ntext", J::str("some\ntext"));
    });
}
template <class T> void top(const char *name)
{
    type<T>(name);
    if constexpr (std::is_same_v<T, std::string>)
        serializeOnly();
}
} // namespace vhcheck
