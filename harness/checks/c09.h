// C09: binary representation compared with independent encoder/decoder
#include "../vh/binlib.h"
namespace vhcheck {
using namespace vh;
template <class T> void compare(Rng &r, std::uint64_t i)
{
    r.finite = false;
    r.utf8 = false;
    r.big = i % 6 == 0;
    r.huge = i == 17 || i % 64 == 57;
    r.budget = r.big ? 1500 : 60 + static_cast<int>(i % 5) * 40;
    sharingEnabled() = i % 2;
    clearSharedPools();
    exactNaN() = true;
    T v = gen<T>(r), v2 = gen<T>(r);
    auto &rep = report();
    const bool two = r.chance(30);
    rep.detail = "value " + dumped(v);
    std::ostringstream os;
    os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    {
        BR::BinarySerializer s(&os);
        s.write(v);
        if (two)
            s.write(v2);
    }
    const auto bytes = os.str();
    rep.detail = "value " + dumped(v) + " bytes " + hex(bytes);
    evaluated(bytes.size() > 1 ? hashStr(bytes) : 0, hex(bytes, 100));

    // compare written bytes with definition
    Enc m;
    m.actual = &bytes;
    encode(m, v);
    if (two)
        encode(m, v2);
    if (m.out != bytes) {
        std::size_t at = 0;
        while (at < m.out.size() && at < bytes.size() && m.out[at] == bytes[at])
            ++at;
        violation("bytes-differ", "at offset " + std::to_string(at) + ": expected " + hex(m.out) + " but got " + hex(bytes) + " for " + dumped(v) + (two ? " and " + dumped(v2) : std::string()));
        return;
    }
    if (!m.problem.empty())
        violation("identifiers", m.problem + " in " + hex(bytes) + " for " + dumped(v));
    count("pointers_first", m.firstOcc);
    count("pointers_repeated", m.repeated);

    // read what an independent writer produces
    Enc e;
    e.ids = &r;
    encode(e, v);
    const auto size = e.out.size();
    e.out += static_cast<char>(r.next());
    T w = fresh<T>();
    const auto res = readInto(w, e.out);
    if (!res.ok)
        violation("foreign-bytes-rejected", res.what + " when reading " + hex(e.out) + " denoting " + dumped(v));
    else if (!same(v, w) || sharing(v) != sharing(w))
        violation("foreign-bytes-differ", "[" + diffNote() + "] " + hex(e.out) + " denoting " + dumped(v) + " is read as " + dumped(w));
    else if (res.consumed != size)
        violation("foreign-bytes-position", "consumed " + std::to_string(res.consumed) + " instead of " + std::to_string(size) + " bytes of " + hex(e.out));
    // read what the library produces with an independent reader
    Dec d;
    d.in = bytes;
    T x = fresh<T>();
    try {
        decode(d, x);
        if (!same(v, x) || sharing(v) != sharing(x))
            violation("independent-reader-differs", "[" + diffNote() + "] " + dumped(v) + " read as " + dumped(x));
    } catch (const DecodeFailure &f) {
        violation("independent-reader-fails", f.why);
    }
}
template <class T> void top(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { compare<T>(r, i); });
}
template <class T> void type(const char *name) { top<T>(name); }
} // namespace vhcheck
