// C23: faults of streams while reading and writing binary data
#include "../vh/binlib.h"
namespace vhcheck {
using namespace vh;

// stream buffer accepting only a limited number of bytes
struct OutBuf : std::streambuf {
    std::string data;
    std::size_t limit;
    bool throws, hit = false;
    OutBuf(std::size_t limit, bool throws)
        : limit(limit)
        , throws(throws)
    {
    }
    int_type overflow(int_type c) override
    {
        if (data.size() >= limit) {
            hit = true;
            if (throws)
                throw std::runtime_error("simulated I/O error");
            return traits_type::eof();
        }
        data += traits_type::to_char_type(c);
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        const auto fits = std::min<std::size_t>(static_cast<std::size_t>(n), limit - data.size());
        data.append(s, fits);
        if (fits != static_cast<std::size_t>(n)) {
            hit = true;
            if (throws)
                throw std::runtime_error("simulated I/O error");
        }
        return static_cast<std::streamsize>(fits);
    }
};
template <class T, class = void> struct HasMembers : std::false_type {};
template <class T>
struct HasMembers<T, std::void_t<decltype(std::declval<const T &>().toBinary(std::declval<std::ostream &>()))>>
    : std::is_base_of<RR::BinarySerializable<T, Desc<T>::version>, T> {};
// writes/reads via one of the entry points
template <class T> void writeAny(std::ostream &os, const T &v, bool member)
{
    if constexpr (HasMembers<T>::value)
        if (member) {
            count("member_writes");
            v.toBinary(os);
            return;
        }
    BR::BinarySerializer(&os).write(v);
}
template <class T> void readAny(std::istream &is, T &v, int member)
{
    if constexpr (HasMembers<T>::value) {
        if (member == 1) {
            count("member_reads");
            v.restoreFromBinary(is);
            return;
        }
        if (member == 2) {
            count("member_reads");
            v = T::fromBinary(is);
            return;
        }
    }
    BR::BinaryDeserializer(&is).read(v);
}
template <class T> void faults(Rng &r, std::uint64_t i)
{
    r.finite = false;
    r.utf8 = false;
    r.budget = 15 + static_cast<int>(i % 6) * 12;
    sharingEnabled() = i % 2;
    clearSharedPools();
    exactNaN() = true;
    const T v = gen<T>(r);
    clearSharedPools();
    const auto before = dumped(v);
    const auto bytes = written(v);
    report().detail = before + " " + hex(bytes);
    evaluated(bytes.size() > 1 ? hashStr(bytes) : 0, hex(bytes, 100));
    const auto step = bytes.size() > 120 ? bytes.size() / 60 : 1;
    for (std::size_t n = i % step; n < bytes.size(); n += step) {
        const bool throws = r.chance(50);
        OutBuf buf(n, throws);
        std::ostream os(&buf);
        const auto mask = r.chance(50) ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit;
        os.exceptions(mask);
        bool raised = false;
        try {
            writeAny(os, v, r.chance(50));
        } catch (const std::ios_base::failure &) {
            raised = true;
        } catch (const std::runtime_error &e) {
            raised = throws;
        }
        if (os.exceptions() != mask)
            violation("stream-exceptions-changed", "exceptions enabled for the output are changed by writing " + before);
        if (!raised)
            violation("write-fault-unnoticed", "output failing after " + std::to_string(n) + " of " + std::to_string(bytes.size()) + " bytes is not reported when writing " + before);
        if (bytes.compare(0, buf.data.size(), buf.data) != 0)
            violation("write-fault-no-prefix", "data written before failure after " + std::to_string(n) + " bytes is no prefix: " + hex(buf.data) + " vs. " + hex(bytes));
        if (buf.data.size() != n)
            violation("write-fault-incomplete", "only " + std::to_string(buf.data.size()) + " bytes written although the output only failed after " + std::to_string(n));
        count("write_faults");
    }
    if (dumped(v) != before)
        violation("written-object-modified", before + " became " + dumped(v));
    if (written(v) != bytes)
        violation("write-after-fault-differs", "writing again yields other bytes than before the faults: " + hex(written(v)) + " vs. " + hex(bytes));

    // one stream for writing and reading: its end is noticed as well
    {
        constexpr auto mask = std::ios_base::failbit | std::ios_base::badbit;
        std::stringstream s;
        s.exceptions(mask);
        writeAny(s, v, r.chance(50));
        if (s.exceptions() != mask)
            violation("stream-exceptions-changed", "exceptions enabled for the stream are changed by writing " + before);
        if (s.str() != bytes)
            violation("stream-differs", "writing to a stream used for writing and reading yields " + hex(s.str()) + " instead of " + hex(bytes));
        T w = fresh<T>();
        const auto entry = static_cast<int>(r.below(3));
        auto res = guardedRead<T>([&](auto &) { readAny(s, w, entry); });
        if (!res.ok || !same(v, w) || s.exceptions() != mask || s.peek() != std::char_traits<char>::eof())
            violation("stream-differs", res.what + " when reading " + hex(bytes) + " from the stream it has been written to, read " + dumped(w) + " instead of " + before);
        if (!bytes.empty()) {
            s.clear();
            s.str(bytes.substr(0, r.below(bytes.size())));
            clearSharedPools();
            bool raised = false;
            try {
                readAny(s, w, entry);
            } catch (const std::exception &) {
                raised = true;
            }
            if (!raised)
                violation("end-unnoticed", "end of stream within the data is not reported when reading " + before + " from the stream it has been written to");
        }
        count("same_stream");
    }

    // small pieces
    for (int k = 0; k != 2; ++k) {
        InBuf buf(bytes);
        buf.pieces = &r;
        std::istream is(&buf);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        T w = fresh<T>();
        const auto res = guardedRead<T>([&](auto &) { readAny(is, w, static_cast<int>(r.below(3))); });
        if (!res.ok || !same(v, w) || buf.consumed() != bytes.size())
            violation("pieces-differ", res.what + " when reading " + hex(bytes) + " in small pieces, read " + dumped(w) + " instead of " + before);
        count("piecewise_reads");
    }
    // failing input, then another restore into the same object
    for (std::size_t n = i % step; n < bytes.size(); n += step) {
        InBuf buf(bytes);
        buf.failAt = n;
        if (r.chance(30))
            buf.pieces = &r;
        std::istream is(&buf);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        T w = fresh<T>();
        if (r.chance(50))
            genInto(r, w);
        clearSharedPools();
        bool raised = false;
        try {
            readAny(is, w, static_cast<int>(r.below(3)));
        } catch (const std::exception &) {
            raised = true;
        }
        if (is.exceptions() != (std::ios_base::failbit | std::ios_base::badbit))
            violation("stream-exceptions-changed", "exceptions enabled for the input are changed by reading " + before);
        if (!raised)
            violation("read-fault-unnoticed", "input failing after " + std::to_string(n) + " of " + std::to_string(bytes.size()) + " bytes is not reported when reading " + before);
        count("read_faults");
        dumped(w);
        if (r.chance(50)) {
            const auto res = readInto(w, bytes);
            if (!res.ok || !same(v, w))
                violation("restore-after-fault-differs", "[" + diffNote() + "] " + res.what + " object restored after previous failure is " + dumped(w) + " instead of " + before);
            count("restores_after_fault");
        } else
            written(w); // partially restored object can be used
    }
}
template <class T> void top(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { faults<T>(r, i); });
}
template <class T> void type(const char *name) { top<T>(name); }
} // namespace vhcheck
