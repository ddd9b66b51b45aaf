// C11: corrupted and truncated binary data
#include "../vh/binlib.h"
namespace vh {
namespace detail {
extern std::size_t liveLimit;
extern std::atomic<std::size_t> live;
}
}
namespace vhcheck {
using namespace vh;

struct MemoryLimit {
    explicit MemoryLimit(std::size_t n) { detail::liveLimit = detail::live + n; }
    ~MemoryLimit() { detail::liveLimit = static_cast<std::size_t>(-1); }
};

template <class T> void corrupted(Rng &r, std::string_view bytes, bool truncated)
{
    report().detail = hex(bytes, 2000);
    evaluated(bytes.size() ? hashStr(bytes) : 0, hex(bytes, 100));
    Dec d;
    d.in = bytes;
    T ref = fresh<T>();
    bool ok = true;
    DecodeFailure failure;
    try {
        decode(d, ref);
    } catch (const DecodeFailure &f) {
        ok = false;
        failure = f;
    }
    T w = fresh<T>();
    ReadResult<T> res;
    {
        MemoryLimit limit(std::size_t(1) << 23);
        InBuf buf(bytes);
        std::istream is(&buf);
        is.exceptions(r.chance(50) ? std::ios_base::failbit | std::ios_base::badbit : std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
        res = guardedRead<T>([&](auto &q) {
            BR::BinaryDeserializer des(&is);
            if constexpr (cat<T>() == Cat::Struct)
                q.stored = des.read(w);
            else
                des.read(w);
        });
        res.consumed = buf.consumed();
    }
    if (res.alloc)
        count("allocation_failures");
    const auto text = dumped(w); // accesses everything within the (possibly partially) restored object
    if (d.undecided) {
        count("undecided");
        return;
    }
    if (truncated && ok)
        violation("harness", "truncated data decodable by reference " + hex(bytes));
    if (ok != res.ok)
        violation(truncated ? "truncated-accepted" : res.ok ? "corrupted-accepted" : "valid-rejected",
            "reading " + hex(bytes, 2000) + (res.ok ? " succeeded with " + text : " failed with " + res.what) + " but " + (ok ? "it denotes " + dumped(ref) : "it has to be rejected: " + failure.why));
    else if (ok) {
        count("decodable");
        if (!same(ref, w) || sharing(ref) != sharing(w))
            violation("value-differs", "[" + diffNote() + "] " + hex(bytes, 2000) + " denotes " + dumped(ref) + " but " + text + " has been read");
        else if (res.consumed != d.pos)
            violation("consumed-differs", "consumed " + std::to_string(res.consumed) + " instead of " + std::to_string(d.pos) + " bytes of " + hex(bytes, 2000));
    } else {
        count("rejected: " + failure.why);
        const bool conv = failure.why.compare(0, 11, "end of data") != 0;
        if (res.other || (!res.alloc && (conv ? !res.conversion : !res.stream)))
            violation("exception-kind", "reading " + hex(bytes, 2000) + " failed with " + res.what + " but the problem is: " + failure.why);
    }
}
template <class T> void hostile(Rng &r, std::uint64_t i)
{
    r.finite = false;
    r.utf8 = false;
    r.budget = 20 + static_cast<int>(i % 6) * 20;
    sharingEnabled() = i % 2;
    clearSharedPools();
    exactNaN() = true;
    std::string bytes, other;
    {
        const T v = gen<T>(r), v2 = gen<T>(r);
        clearSharedPools();
        Enc e, e2;
        e.ids = e2.ids = &r;
        encode(e, v);
        encode(e2, v2);
        bytes = e.out, other = e2.out;
    }
    // truncation
    const auto step = bytes.size() > 200 ? bytes.size() / 100 : 1;
    for (std::size_t n = i % step; n < bytes.size(); n += step)
        corrupted<T>(r, std::string_view(bytes).substr(0, n), true), count("truncations");
    // wrong references
    for (int k = 0; k != 6; ++k) {
        r.budget = 50;
        const T v = gen<T>(r);
        clearSharedPools();
        Enc e;
        e.ids = e.breakRefs = &r;
        encode(e, v);
        if (e.used.empty()) {
            if (k == 2)
                break;
            continue;
        }
        corrupted<T>(r, e.out, false);
        count("wrong_references");
    }
    // mutation
    for (int k = 0; k != 25; ++k) {
        auto m = bytes;
        for (auto q = 1 + r.below(k < 15 ? 1 : 3); q; --q) {
            const auto at = m.empty() ? 0 : r.below(m.size());
            switch (r.below(9)) {
            case 0:
                if (!m.empty())
                    m[at] = static_cast<char>(m[at] ^ (1 << r.below(8)));
                break;
            case 1:
                if (!m.empty())
                    m[at] = static_cast<char>(r.next());
                break;
            case 2: // interesting bytes: counts, modes, indexes
                if (!m.empty())
                    m[at] = static_cast<char>(r.pick(std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xff, 0x40, 0x20, 0x10 }));
                break;
            case 3:
                m.insert(at, 1, static_cast<char>(r.next()));
                break;
            case 4:
                if (!m.empty())
                    m.erase(at, 1 + r.below(4));
                break;
            case 5: { // oversized length
                Enc e;
                e.varlen((std::uint64_t(1) << r.below(56)) - r.below(2));
                m.replace(at, m.empty() ? 0 : 1, e.out);
                break;
            }
            case 6: // splice
                m = m.substr(0, at) + (other.empty() ? other : other.substr(r.below(other.size())));
                break;
            case 7: { // duplicate a part
                const auto len = 1 + r.below(12);
                m.insert(at, m.substr(at, len));
                break;
            }
            case 8: { // copy bytes from elsewhere
                if (m.empty())
                    break;
                const auto from = r.below(m.size());
                const auto len = std::min<std::size_t>({ 1 + r.below(9), m.size() - from, m.size() - at });
                m.replace(at, len, m.substr(from, len));
            }
            }
        }
        corrupted<T>(r, m, false);
    }
    std::string noise(r.below(40), '\0');
    for (auto &c : noise)
        c = static_cast<char>(r.chance(50) ? r.below(6) | (r.chance(50) ? 0x80 : 0) : r.next());
    corrupted<T>(r, noise, false);
}
template <class T> void top(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { hostile<T>(r, i); });
}
template <class T> void type(const char *name) { top<T>(name); }
} // namespace vhcheck
