// C08: binary round trip, exact consumption, sequences in one stream
#include "../vh/binlib.h"
namespace vhcheck {
using namespace vh;

// anything which can be written to/read from a stream in between other things
struct Step {
    virtual ~Step() = default;
    virtual void make(Rng &r) = 0;
    virtual void write(BR::BinarySerializer &s, std::ostream &os, bool member) = 0;
    virtual std::string read(BR::BinaryDeserializer &d, std::istream &is, bool member) = 0; // returns problem
    std::string name;
};
template <class T, class = void> struct HasMembers : std::false_type {};
template <class T> struct HasMembers<T, std::void_t<decltype(std::declval<const T &>().toBinary(std::declval<std::ostream &>()))>> : std::true_type {};

template <class T> struct StepOf : Step {
    std::unique_ptr<T> v;
    void make(Rng &r) override { v.reset(new T(gen<T>(r))); }
    void write(BR::BinarySerializer &s, std::ostream &os, bool member) override
    {
        if constexpr (HasMembers<T>::value) {
            if (member) {
                v->toBinary(os);
                return;
            }
        }
        s.write(*v);
    }
    std::string read(BR::BinaryDeserializer &d, std::istream &is, bool member) override
    {
        auto check = [&](const T &w) { return same(*v, w) ? std::string() : "[" + diffNote() + "] " + dumped(*v) + " restored as " + dumped(w); };
        if constexpr (HasMembers<T>::value) {
            if (member)
                return check(T::fromBinary(is));
        }
        T w = fresh<T>();
        d.read(w);
        return check(w);
    }
};
inline std::vector<std::pair<std::string, std::unique_ptr<Step> (*)()>> &steps()
{
    static std::vector<std::pair<std::string, std::unique_ptr<Step> (*)()>> s;
    return s;
}
inline void setup(Rng &r, std::uint64_t i)
{
    r.finite = false;
    r.utf8 = false;
    r.big = i % 6 == 0;
    r.huge = i == 17 || i % 64 == 57;
    r.budget = r.big ? 1500 : 60 + static_cast<int>(i % 5) * 40;
    sharingEnabled() = i % 2;
    clearSharedPools();
    exactNaN() = true;
}

template <class T> void roundTrip(Rng &r, std::uint64_t i)
{
    setup(r, i);
    T v = gen<T>(r);
    auto &rep = report();
    rep.detail = "value " + dumped(v);
    std::string bytes = written(v);
    const auto size = bytes.size();
    rep.detail = "bytes " + hex(bytes) + " value " + rep.detail;
    evaluated(size > 1 ? hashStr(bytes) : 0, hex(bytes, 100));
    if constexpr (HasMembers<T>::value) {
        std::ostringstream os;
        v.toBinary(os);
        if (os.str().size() != size)
            violation("entry-points-differ", "toBinary() and BinarySerializer::write() write different amounts of bytes for " + dumped(v));
    }
    for (auto n = r.below(4); n; --n)
        bytes += static_cast<char>(r.next()); // more data follows
    T w = fresh<T>();
    const auto res = readInto(w, bytes);
    if (!res.ok)
        violation("read-fails", "reading own bytes fails with " + res.what + ": " + rep.detail);
    else if (!same(v, w))
        violation("value-differs", "[" + diffNote() + "] value " + dumped(v) + " restored as " + dumped(w) + " via " + hex(bytes));
    else if (res.consumed != size)
        violation("consumed-differs", "reading consumed " + std::to_string(res.consumed) + " of " + std::to_string(size) + " bytes written for " + dumped(v));
    if constexpr (HasMembers<T>::value) {
        for (int k = 0; k != 2; ++k) {
            InBuf buf(bytes);
            std::istream is(&buf);
            is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            T x = fresh<T>();
            const auto res2 = guardedRead<T>([&](auto &q) {
                if (k)
                    x = T::fromBinary(is);
                else
                    q.stored = x.restoreFromBinary(is);
            });
            if (!res2.ok || !same(v, x) || buf.consumed() != size)
                violation(k ? "fromBinary-differs" : "restoreFromBinary-differs", "[" + res2.what + " " + diffNote() + "] " + dumped(v) + " restored as " + dumped(x) + ", consumed "
                    + std::to_string(buf.consumed()) + " of " + std::to_string(size));
        }
    }
}
template <class T> void top(const char *name)
{
    steps().emplace_back(name, [] { return std::unique_ptr<Step>(new StepOf<T>()); });
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { roundTrip<T>(r, i); });
}
template <class T> void type(const char *name) { top<T>(name); }

inline void sequences()
{
    top<std::uint64_t>("u64");
    top<std::string>("string");
    top<bool>("bool");
    top<double>("double");
    scenario("sequences", report().cases * 4, [](Rng &r, std::uint64_t i) {
        setup(r, i);
        std::vector<std::unique_ptr<Step>> seq;
        std::vector<bool> member;
        std::vector<std::size_t> ends;
        std::ostringstream os;
        os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        std::string names;
        {
            BR::BinarySerializer s(&os);
            const auto n = 2 + r.below(8);
            for (std::uint64_t k = 0; k != n; ++k) {
                auto &st = r.pick(steps().empty() ? throw std::runtime_error("no steps") : steps());
                seq.push_back(st.second());
                names += st.first + " ";
                r.budget = 60;
                seq.back()->make(r);
                member.push_back(r.chance(30));
                seq.back()->write(s, os, member.back());
                ends.push_back(static_cast<std::size_t>(os.tellp()));
            }
        }
        const auto bytes = os.str();
        report().detail = names + hex(bytes);
        InBuf buf(bytes);
        std::istream is(&buf);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        BR::BinaryDeserializer d(&is);
        for (std::size_t k = 0; k != seq.size(); ++k) {
            const auto p = seq[k]->read(d, is, member[k]);
            if (!p.empty()) {
                violation("sequence-value-differs", "element " + std::to_string(k) + " of " + names + ": " + p);
                break;
            }
            if (buf.consumed() != ends[k]) {
                violation("sequence-position-differs", "after element " + std::to_string(k) + " of " + names + " at " + std::to_string(buf.consumed()) + " instead of " + std::to_string(ends[k]));
                break;
            }
            count("sequence_elements");
        }
        evaluated(hashStr(bytes), names + hex(bytes, 60));
    });
}
} // namespace vhcheck
