// C12: versioning of binary data
#include "../vh/binlib.h"
namespace vhcheck {
using namespace vh;

template <class T, class = void> struct HasMembers : std::false_type {};
template <class T> struct HasMembers<T, std::void_t<decltype(std::declval<const T &>().toBinary(std::declval<std::ostream &>()))>> : std::is_base_of<RR::BinarySerializable<T, Desc<T>::version>, T> {};
// all versions mentioned in the class
template <class T> std::set<std::uint64_t> versionsOf()
{
    std::set<std::uint64_t> vs{ 0, 1, 2, 3, 4, 5, 6, 7, 1000000, ~std::uint64_t(0) >> 8 };
    T *p = nullptr;
    T t = fresh<T>();
    Desc<T>::fields(t, [&](auto fm, auto &) {
        for (std::uint64_t d = 0; d != 3; ++d) {
            if (decltype(fm)::asOf)
                vs.insert(decltype(fm)::asOf + d - 1);
            if (decltype(fm)::until)
                vs.insert(decltype(fm)::until + d - 1);
        }
    });
    if (Desc<T>::version)
        vs.insert({ Desc<T>::version - 1, Desc<T>::version, Desc<T>::version + 1 });
    return vs;
}
template <class T> void versions(Rng &r, std::uint64_t i)
{
    r.finite = false;
    r.utf8 = false;
    sharingEnabled() = i % 2;
    clearSharedPools();
    exactNaN() = true;
    const auto seed = r.next();
    r.budget = 40 + static_cast<int>(i % 4) * 30;
    const T v = gen<T>(r);
    for (const auto version : versionsOf<T>()) {
        const auto bytes = written(v, version);
        report().detail = "version " + std::to_string(version) + " of " + dumped(v);
        Enc m;
        m.actual = &bytes;
        encode(m, v, version);
        evaluated(hashStr(bytes), "version " + std::to_string(version) + ": " + hex(bytes, 80));
        count("version_prefixes", static_cast<std::uint64_t>(m.versions));
        if (m.out != bytes || !m.problem.empty()) {
            violation("bytes-differ", m.problem + " expected " + hex(m.out) + " but got " + hex(bytes) + " for " + report().detail);
            continue;
        }
        if constexpr (HasMembers<T>::value) {
            std::ostringstream os;
            v.toBinary(os, version);
            if (os.str().size() != bytes.size())
                violation("entry-points-differ", "toBinary() and write() differ for " + report().detail);
        }
        // read into object with other content
        Rng q(seed ^ version), q2(seed ^ version);
        q.budget = q2.budget = 40;
        sharingEnabled() = false;
        T w = fresh<T>(), expected = fresh<T>();
        if (version % 3) { // otherwise into a new one
            genInto(q, w);
            genInto(q2, expected);
        }
        const auto before = dumped(w);
        Dec d;
        d.in = bytes;
        std::uint64_t stored = 0;
        try {
            stored = decode(d, expected, version);
        } catch (const DecodeFailure &f) {
            violation("harness", "reference decoder fails: " + f.why);
            continue;
        }
        const bool viaMember = Desc<T>::version && r.chance(50);
        ReadResult<T> res;
        InBuf buf(bytes);
        std::istream is(&buf);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        res = guardedRead<T>([&](auto &x) {
            if constexpr (HasMembers<T>::value) {
                if (viaMember) {
                    x.stored = w.restoreFromBinary(is);
                    return;
                }
            }
            x.stored = BR::BinaryDeserializer(&is).read(w, version);
        });
        if (!res.ok)
            violation("read-fails", res.what + " when reading " + hex(bytes) + ": " + report().detail);
        else if (!same(w, expected))
            violation("value-differs", "[" + diffNote() + "] reading " + hex(bytes) + " into " + before + " gives " + dumped(w) + " instead of " + dumped(expected) + ": " + report().detail);
        else if (buf.consumed() != bytes.size())
            violation("position", "consumed " + std::to_string(buf.consumed()) + " of " + std::to_string(bytes.size()));
        else if (res.stored != stored)
            violation("returned-version", "returned version " + std::to_string(res.stored) + " instead of " + std::to_string(stored) + ": " + report().detail);
        if (Desc<T>::version && res.ok) {
            const auto eff = !version || version > Desc<T>::version ? Desc<T>::version : version;
            if (res.stored != eff)
                violation("effective-version", "stored version is " + std::to_string(res.stored) + " instead of " + std::to_string(eff) + ": " + report().detail);
            count("returned_versions");
        }
        sharingEnabled() = i % 2;
        // unsupported version at one of the places
        if (m.versions && !(r.below(3))) {
            Enc e;
            Rng ids(seed);
            e.ids = &ids;
            e.bumpAt = static_cast<std::int64_t>(r.below(static_cast<std::uint64_t>(m.versions)));
            encode(e, v, version);
            Enc e2;
            Rng ids2(seed);
            e2.ids = &ids2;
            e2.bumpAt = e.bumpAt;
            e2.bumpTo = e.bumpedMax + (r.chance(50) ? 1 : 1 + r.below(std::uint64_t(1) << r.below(50)));
            encode(e2, v, version);
            T x = fresh<T>();
            const auto res2 = readInto(x, e2.out, version);
            if (!res2.versionError)
                violation("unsupported-version-accepted", "version " + std::to_string(e2.bumpTo) + " of " + e.bumped + " (max. " + std::to_string(e.bumpedMax) + ") in " + hex(e2.out) + ": "
                    + (res2.ok ? "accepted" : res2.what));
            else if (res2.presentVersion != e2.bumpTo || res2.maxVersion != e.bumpedMax || res2.record != e.bumped)
                violation("version-error-details", "version " + std::to_string(e2.bumpTo) + " of " + e.bumped + " (max. " + std::to_string(e.bumpedMax) + ") reported as " + std::to_string(res2.presentVersion)
                    + " of " + res2.record + " (max. " + std::to_string(res2.maxVersion) + ")");
            count("unsupported_versions");
        }
    }
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { versions<T>(r, i); });
}
template <class T> void top(const char *name) {}
} // namespace vhcheck
