// C07: ownership
#include "../vh/jsoncheck.h"
namespace vhcheck {
template <class T> T *renew(std::unique_ptr<T> &p, Rng &r, bool modify)
{
    if (!modify) {
        p.reset();
        stringPool().clear();
        return nullptr;
    }
    // modify the object in place (strings overwritten, containers changed)
    for (auto &s : stringPool())
        std::fill(s.begin(), s.end(), '#');
    genInto(r, *p);
    return p.get();
}
// strings passed to the functions for serializing directly
inline void strings()
{
    scenario("strings", report().cases * 4, [](Rng &r, std::uint64_t i) {
        r.big = i % 3 == 0;
        r.huge = i % 40 == 0;
        const auto original = genString(r, i % 2);
        const J expected = J::str(original);
        std::vector<char> buffer(original.begin(), original.end());
        buffer.push_back('\0');
        std::unique_ptr<char[]> exact(new char[original.size() ? original.size() : 1]);
        std::copy(original.begin(), original.end(), exact.get());
        auto copy = std::make_unique<std::string>(original);
        const auto cstr = original.find('\0') == std::string::npos;
        report().detail = printed(expected).substr(0, 200);
        evaluated(hashStr(original), report().detail);
        std::vector<std::pair<const char *, RJ::Document>> docs;
        docs.emplace_back("toJsonDocument(std::string)", JR::toJsonDocument(*copy));
        docs.emplace_back("toJsonDocument(std::string_view)", JR::toJsonDocument(std::string_view(exact.get(), original.size())));
        if (cstr)
            docs.emplace_back("toJsonDocument(const char *)", JR::toJsonDocument(static_cast<const char *>(buffer.data())));
        const auto pushed = [&docs](const char *what, const auto &v) {
            RJ::Document d;
            JR::push(v, static_cast<RJ::Value &>(d), d.GetAllocator());
            docs.emplace_back(what, std::move(d));
            RJ::Document a(RJ::kArrayType);
            RJ::Value::Array array(a.GetArray());
            JR::push(v, array, a.GetAllocator());
            RJ::Document b;
            b.CopyFrom(a[0], b.GetAllocator()); // does not copy strings referred to
            docs.emplace_back(what, std::move(a));
            docs.emplace_back(what, std::move(b));
        };
        pushed("push(std::string)", *copy);
        pushed("push(std::string_view)", std::string_view(exact.get(), original.size()));
        if (cstr)
            pushed("push(const char *)", static_cast<const char *>(buffer.data()));
        const auto text = JR::toJson(std::string_view(exact.get(), original.size()));
        if (i % 2) {
            copy.reset();
            exact.reset();
            std::vector<char>().swap(buffer);
        } else {
            std::fill(copy->begin(), copy->end(), '#');
            std::fill(exact.get(), exact.get() + original.size(), '#');
            std::fill(buffer.begin(), buffer.end() - 1, '#');
        }
        for (const auto &d : docs) {
            const auto got = fromRapid(d.second.IsArray() ? d.second[0] : static_cast<const RJ::Value &>(d.second));
            if (!eq(got, expected))
                violation("document-depends-on-string", std::string(d.first) + ": document changed after string has been " + (i % 2 ? "destroyed" : "modified") + ": " + printed(expected).substr(0, 200));
            count("strings");
        }
        if (std::string(text.GetString(), text.GetSize()) != printed(expected) && [&] { JsonParse p; return !p.parse(std::string(text.GetString(), text.GetSize())) || !eq(p.value, expected); }())
            violation("text-differs", "toJson(std::string_view) gives " + std::string(text.GetString(), text.GetSize()));
    });
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        const auto seed = r.next();
        const auto make = [&] {
            stringPool().clear();
            return std::unique_ptr<T>(new T(genSeed<T>(seed)));
        };
        std::string why;
        // serialization: source goes away or changes
        {
            auto p = make();
            const auto expected = refPush(*p);
            const auto text = printed(expected);
            report().detail = text;
            evaluated(hashStr(text), text);
            auto doc = JR::toJsonDocument(*p);
            renew(p, r, i % 2);
            if (!eq(fromRapid(doc), expected, &why))
                violation("document-depends-on-object", "document changed after object has been " + std::string(i % 2 ? "modified: " : "destroyed: ") + why);
            count(i % 2 ? "object modified" : "object destroyed");
            // moved document
            RJ::Document moved(std::move(doc));
            if (!eq(fromRapid(moved), expected, &why))
                violation("document-moved", "document changed when moved: " + why);
        }
        {
            auto p = make();
            const auto expected = refPush(*p);
            auto doc = std::make_unique<RJ::Document>();
            RJ::Value v;
            JR::push(*p, v, doc->GetAllocator());
            renew(p, r, i % 3 == 0);
            if (!eq(fromRapid(v), expected, &why))
                violation("value-depends-on-object", "value changed after object has been modified/destroyed: " + why);
            count("value pushed");
        }
        // deserialization: text and document go away
        {
            const J d = genDoc<T>(r, 3);
            if (topMatches<T>(d)) {
                PullCtx c;
                const T expected = refFromJson<T>(d, c);
                auto text = std::make_unique<Exact>(printed(d));
                auto errors = std::make_unique<RR::JsonDeserializationErrors>();
                const T got = JR::fromJson<T>(text->p.get(), text->n, errors.get());
                std::memset(text->p.get(), '#', text->n);
                text.reset();
                if (!same(expected, got))
                    violation("object-depends-on-text", "[" + diffNote() + "] object changed after text has been destroyed: " + dumped(got) + " expected " + dumped(expected));
                if (sorted(conv(*errors)) != sorted(c.errors))
                    violation("errors-depend-on-text", "errors changed after text has been destroyed: " + vh::text(conv(*errors)) + " expected " + vh::text(c.errors));
                count("text destroyed");
            }
            PullCtx c;
            auto expected = std::make_unique<T>();
            refPull(*expected, d, c);
            auto got = std::make_unique<T>();
            RR::JsonDeserializationErrors errors;
            {
                auto text = printed(d);
                RJ::Document doc;
                if (i % 2) {
                    doc.Parse<RJ::kParseFullPrecisionFlag>(text.data(), text.size());
                    JR::pull(*got, static_cast<const RJ::Value &>(doc), &errors);
                } else {
                    text.push_back('\0');
                    doc.ParseInsitu<RJ::kParseFullPrecisionFlag>(text.data());
                    JR::pull(*got, static_cast<const RJ::Value &>(doc), &errors);
                    std::fill(text.begin(), text.end(), '#');
                    count("in-situ document");
                }
            }
            if (!same(*expected, *got))
                violation("object-depends-on-document", "[" + diffNote() + "] object changed after document has been destroyed: " + dumped(*got) + " expected " + dumped(*expected));
            if (sorted(conv(errors)) != sorted(c.errors))
                violation("errors-depend-on-document", "errors changed after document has been destroyed: " + vh::text(conv(errors)) + " expected " + vh::text(c.errors));
            count("document destroyed");
        }
    });
}
template <class T> void top(const char *name)
{
    type<T>(name);
    if constexpr (std::is_same_v<T, std::string>)
        strings();
}
} // namespace vhcheck
