// C13: the generated code covers exactly the right members
#pragma once
#include "../vh/binlib.h"
#include "../vh/lib.h"
namespace vhcheck {
using namespace vh;

// all data members, no matter whether they are supposed to be serialized
template <class T> void allMembers(const T &v, J &obj)
{
    Desc<T>::bases([&](auto b) { allMembers(static_cast<const typename decltype(b)::type &>(v), obj); });
    Desc<T>::fields(v, [&](auto fm, auto &f) {
        if (!obj.find(fm.name))
            obj.o.emplace_back(fm.name, refPush(f));
    });
}
template <class T, bool json, bool bin, bool jpull, bool bread> void shape(const char *name)
{
    scenario(name, report().cases, [&](Rng &r, std::uint64_t i) {
        const auto s1 = r.next(), s2 = r.next();
        const T v = genSeed<T>(s1), w = genSeed<T>(s2);
        if constexpr (json) {
            RJ::Document doc(RJ::kObjectType);
            JR::push<T>(v, doc, doc.GetAllocator());
            const auto expected = printed(refPush(v));
            const auto got = fromRapid(doc);
            evaluated(hashStr(expected), expected);
            // members incl. their order
            std::string names, expectedNames;
            for (auto &m : got.o)
                names += m.first + " ";
            J model = refPush(v);
            for (auto &m : model.o)
                expectedNames += m.first + " ";
            if (names != expectedNames)
                violation("json-members", std::string(name) + " is serialized with the members " + names + " instead of " + expectedNames);
            std::string why;
            if (!eq(model, got, &why))
                violation("json-content", std::string(name) + " is serialized as " + printed(got) + " instead of " + expected + ": " + why);
            count("JSON members written", got.o.size());
            J full = J::obj();
            allMembers(v, full);
            count("JSON members left out", full.o.size() - model.o.size());
        }
        if constexpr (jpull) {
            J full = J::obj();
            allMembers(w, full);
            for (std::size_t n = full.o.size(); n > 1; --n)
                std::swap(full.o[n - 1], full.o[r.below(n)]);
            const auto text = printed(full);
            report().detail = text;
            T obj = genSeed<T>(s1), model = genSeed<T>(s1);
            PullCtx c;
            refPullObject(model, full, c);
            RJ::Document doc = JR::parseJsonDocFromString(text.data(), text.size());
            RR::JsonDeserializationErrors errors;
            const RJ::Document &cdoc = doc;
            JR::pull<T>(obj, cdoc.GetObject(), &errors);
            evaluated(hashStr(text));
            if (!errors.empty())
                violation("json-errors", std::string(name) + ": unexpected errors " + vh::text(conv(errors)) + " for " + text);
            if (!same(model, obj))
                violation("json-pulled-members", std::string(name) + " populated wrongly: [" + diffNote() + "] got " + dumped(obj) + " expected " + dumped(model) + " from " + text);
            count("JSON pulled");
        }
        if constexpr (bin) {
            std::ostringstream os;
            BR::BinarySerializer ser(&os);
            if constexpr (Desc<T>::version)
                ser.write(v, Desc<T>::version);
            else
                ser.write(v);
            const auto got = os.str();
            Enc e;
            encode(e, v, Desc<T>::version);
            evaluated(hashStr(got));
            if (got != e.out)
                violation("binary-members", std::string(name) + " is written as " + hex(got) + " instead of " + hex(e.out) + ": " + dumped(v));
            count("binary bytes written", got.size());
        }
        if constexpr (bread) {
            Enc e;
            e.forReader = true;
            encode(e, w, Desc<T>::version);
            T obj = genSeed<T>(s1), model = genSeed<T>(s1);
            report().detail = hex(e.out);
            Dec d;
            d.in = e.out;
            decode(d, model, 0);
            const auto res = readInto(obj, e.out);
            evaluated(hashStr(e.out) ^ 1);
            if (!res.ok)
                violation("binary-read", std::string(name) + " cannot be read from " + hex(e.out) + ": " + res.what);
            else if (res.consumed != e.out.size())
                violation("binary-consumed", std::string(name) + ": reading consumes " + std::to_string(res.consumed) + " of " + std::to_string(e.out.size()) + " bytes");
            else if (!same(model, obj))
                violation("binary-read-members", std::string(name) + " restored wrongly: [" + diffNote() + "] got " + dumped(obj) + " expected " + dumped(model) + " from " + hex(e.out));
            count("binary read");
        }
    });
}
} // namespace vhcheck
