// C16: equivalence of Boost.Hana reflection and generated code
#include "../vh/jsoncheck.h"
#include "../vh/binlib.h"
namespace vh {
namespace detail {
extern std::size_t liveLimit;
extern std::atomic<std::size_t> live;
}
}
namespace vhcheck {
using namespace vh;
struct MemoryLimit {
    explicit MemoryLimit(std::size_t n) { detail::liveLimit = detail::live + n; }
    ~MemoryLimit() { detail::liveLimit = static_cast<std::size_t>(-1); }
};
// errors without record; all records have to be "[document]" when using Boost.Hana
inline std::vector<Err> withoutRecord(std::vector<Err> e)
{
    for (auto &x : e)
        x.record = "[document]";
    return e;
}
template <class T> struct BinOutcome {
    ReadResult<T> res;
    std::string text;
};
template <class T> BinOutcome<T> readBytes(const std::string &bytes, int entry, T &v, std::uint64_t version = 0)
{
    BinOutcome<T> o;
    InBuf buf(bytes);
    std::istream is(&buf);
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    o.res = guardedRead<T>([&](auto &q) {
        const MemoryLimit limit(std::size_t(1) << 23);
        if (entry == 0)
            q.stored = v.restoreFromBinary(is);
        else if (entry == 1)
            v = T::fromBinary(is);
        else
            q.stored = BR::BinaryDeserializer(&is).read(v, version);
    });
    o.res.consumed = buf.consumed();
    o.text = dumped(v);
    return o;
}
template <class G, class H> void compareRead(const std::string &bytes, int entry, bool valid, std::uint64_t version)
{
    report().detail = hex(bytes, 2000);
    G g = fresh<G>();
    H h = fresh<H>();
    const auto a = readBytes(bytes, entry, g, version);
    const auto b = readBytes(bytes, entry, h, version);
    if (a.res.alloc || b.res.alloc)
        return count("allocation failures"); // depends on size of types
    if (a.res.ok != b.res.ok || a.res.consumed != b.res.consumed || a.res.what != b.res.what || a.text != b.text || (!version && a.res.stored != b.res.stored) || sharing(g) != sharing(h))
        violation("binary-read-differs", "reading " + hex(bytes, 2000) + " gives " + a.text + " " + a.res.what + " with generated code but " + b.text + " " + b.res.what + " with Boost.Hana, consumed "
            + std::to_string(a.res.consumed) + " and " + std::to_string(b.res.consumed));
    if (valid && !b.res.ok)
        violation("binary-read-fails", "reading " + hex(bytes, 2000) + " fails with " + b.res.what);
    count(valid ? "bytes read" : "corrupted bytes");
    if (!a.res.ok)
        count("corrupted bytes rejected");
}
template <class G, class H> void twins(const char *name)
{
    scenario(std::string(name) + " values", report().cases, [](Rng &r, std::uint64_t i) {
        const auto seed = r.next();
        const auto make = [&](auto t, bool finite, bool share) {
            Rng q(seed);
            q.finite = finite;
            q.utf8 = finite;
            q.big = i % 10 == 0;
            q.budget = 40 + static_cast<int>(i % 5) * 30;
            clearSharedPools();
            sharingEnabled() = share;
            return gen<typename decltype(t)::type>(q);
        };
        exactNaN() = true;
        {
            const G g = make(tag<G>(), true, false);
            const H h = make(tag<H>(), true, false);
            report().detail = dumped(g);
            if (dumped(g) != dumped(h))
                return violation("harness", "twins have different values: " + dumped(g) + " " + dumped(h));
            const auto a = toJsonText(g), b = toJsonText(h);
            if (a != b)
                violation("json-differs", dumped(g) + " is serialized as " + a + " by generated code but as " + b + " using Boost.Hana");
            if (!eq(fromRapid(g.toJsonDocument()), fromRapid(h.toJsonDocument())))
                violation("json-document-differs", dumped(g) + " leads to different documents");
            const auto w = H::fromJson(a);
            if (!same(w, h))
                violation("json-value-differs", dumped(g) + " is restored as " + dumped(w) + " using Boost.Hana");
            evaluated(hashStr(a), a);
        }
        const G g = make(tag<G>(), false, i % 2);
        const auto identities = sharing(g);
        const H h = make(tag<H>(), false, i % 2);
        clearSharedPools();
        if (dumped(g) != dumped(h))
            return violation("harness", "twins have different values: " + dumped(g) + " " + dumped(h));
        std::ostringstream x, y;
        x.exceptions(std::ios_base::failbit | std::ios_base::badbit), y.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        const auto version = i % 2 ? r.below(6) : 0;
        if (version)
            count("values with version");
        if (i % 3) {
            g.toBinary(x, version);
            h.toBinary(y, version);
        } else {
            BR::BinarySerializer(&x).write(g, version);
            BR::BinarySerializer(&y).write(h, version);
        }
        count("values serialized");
        // identifiers of shared pointers are arbitrary so bytes can only be compared if there are none
        auto bytes = y.str();
        bool shared = false;
        visitShared(g, [&](auto &p) {
            shared = shared || p;
            return false;
        });
        count(shared ? "values with shared pointers" : "values without shared pointers");
        if (!shared && x.str() != y.str())
            violation("binary-differs", dumped(g) + " is written as " + hex(x.str()) + " by generated code but as " + hex(y.str()) + " using Boost.Hana");
        evaluated(hashStr(bytes), hex(bytes, 100));
        for (const auto &s : { x.str(), y.str() }) {
            compareRead<G, H>(s, version ? 2 : static_cast<int>(i % 3), true, version);
            // differences to the original are only due to members which are not part of the version
            G v = fresh<G>(), own = fresh<G>();
            readBytes(s, 2, v, version);
            readBytes(x.str(), 2, own, version);
            const auto sv = sharing(v), so = sharing(own); // empty if ambiguous
            if (!same(v, own) || sv != so || (!sv.empty() && !identities.empty() && sv != identities))
                violation("exchange-differs", dumped(g) + " is restored as " + dumped(v) + " instead of " + dumped(own) + " by generated code when written with Boost.Hana, version " + std::to_string(version) + " " + diffNote() + " " + sharing(v) + " " + sharing(own) + " " + identities);
        }
        for (int k = 0; k != 6; ++k) {
            auto m = bytes;
            for (auto q = 1 + r.below(3); q && !m.empty(); --q) {
                const auto at = r.below(m.size());
                switch (r.below(4)) {
                case 0: m[at] = static_cast<char>(r.next()); break;
                case 1: m[at] = static_cast<char>(r.below(5)); break;
                case 2: m.erase(at, 1 + r.below(4)); break;
                default: m.resize(at);
                }
            }
            compareRead<G, H>(m, static_cast<int>(r.below(3)), false, r.chance(30) ? r.below(6) : version);
        }
    });
    scenario(std::string(name) + " documents", report().cases * 3, [](Rng &r, std::uint64_t i) {
        r.budget = 60 + static_cast<int>(i % 5) * 30;
        const J d = genDoc<G>(r, i % 8 == 0 ? 0 : i % 8 == 1 ? 12 : 4);
        auto s = printed(d, i % 3 ? nullptr : &r);
        report().detail = s;
        RR::JsonDeserializationErrors ge, he;
        if (i % 3 == 0) {
            std::uint32_t flags = 0;
            for (int b = 0; b != 6; ++b)
                flags |= static_cast<std::uint32_t>(r.chance(30)) << b;
            ge.throwOn = he.throwOn = static_cast<RR::JsonDeserializationErrors::ThrowOn>(flags);
        }
        const auto a = observe<G>([&] { return i % 2 ? G::fromJson(s, &ge) : JR::fromJson<G>(s.data(), s.size(), &ge); }, &ge);
        const auto b = observe<H>([&] { return i % 2 ? H::fromJson(s, &he) : JR::fromJson<H>(s.data(), s.size(), &he); }, &he);
        evaluated(hashStr(s), s);
        count("documents");
        if (!a.errors.empty())
            count("documents with errors");
        if (a.error)
            count("fatal errors thrown");
        const bool agreeing = a.thrown == b.thrown && a.parseError == b.parseError && !a.error == !b.error && withoutRecord(a.errors) == withoutRecord(b.errors)
            && (!a.error || withoutRecord({ *a.error }) == withoutRecord({ *b.error })) && (a.thrown || dumped(*a.value) == dumped(*b.value));
        if (!agreeing)
            violation("json-read-differs", "reading " + s + " gives " + text(a) + " with generated code but " + text(b) + " using Boost.Hana");
        // only records of the types having generated code are known
        auto records = b.errors;
        for (auto &e : records)
            if (e.record.find("::common::") != std::string::npos)
                e.record = "[document]";
        if (records != withoutRecord(b.errors))
            violation("record", "record of errors with Boost.Hana: " + vh::text(b.errors) + " for " + s);
        // without errors object
        const auto c = observe<H>([&] { return H::fromJson(s); }, nullptr);
        if (!b.thrown && (c.thrown || !same(*c.value, *b.value)))
            violation("errors-object-matters", "reading " + s + " with Boost.Hana gives " + text(b) + " with errors object and " + text(c) + " without");
    });
}
} // namespace vhcheck
