// Independent model of the binary representation: encoder, byte-level matcher and decoder.
#pragma once
#include "core.h"
#include <typeindex>

namespace vh {

// whether the record stores its version (generated code of a versioned class)
template <class T, class = void> struct CustomBin; // for Cat::Custom: encode(Enc&, const T&), decode(Dec&, T&)

struct Enc {
    std::string out;
    const std::string *actual = nullptr; // matcher: bytes written by the library
    Rng *ids = nullptr; // encoder: source for identifiers
    std::map<const void *, std::uint64_t> known; // pointers already written
    std::set<std::uint64_t> used; // identifiers already used
    std::string problem; // first problem with pointer modes/identifiers
    Rng *breakRefs = nullptr; // write references to arbitrary identifiers
    std::int64_t bumpAt = -1; // replace the n-th version prefix
    std::uint64_t bumpTo = 0;
    std::string bumped; // name of the class whose version prefix was replaced
    std::uint64_t bumpedMax = 0;
    std::int64_t versions = 0; // number of version prefixes written
    bool forReader = false; // encode what the reader expects where reading and writing differ
    std::uint64_t firstOcc = 0, repeated = 0, bigIds = 0;

    void u(std::uint64_t v, int bytes)
    {
        for (int i = bytes - 1; i >= 0; --i)
            out += static_cast<char>(static_cast<unsigned char>(v >> (8 * i)));
    }
    void varlen(std::uint64_t v)
    {
        for (int n = 1; n <= 8; ++n)
            if (v < (std::uint64_t(1) << (7 * n))) {
                u(v | (std::uint64_t(1) << (7 * n)), n);
                return;
            }
        problem = "number exceeds maximum of variable length encoding";
    }
    std::uint64_t newId()
    {
        for (;;) {
            std::uint64_t id;
            switch (ids ? ids->below(6) : 0) {
            case 0:
                id = known.size();
                break;
            case 1:
                id = ids->next();
                break;
            case 2:
                id = (std::uint64_t(1) << 55) + ids->below(5) - 2;
                break;
            case 3:
                id = std::uint64_t(1) << ids->below(64);
                break;
            default:
                id = ids->next() >> ids->below(64);
            }
            if (used.insert(id).second)
                return id;
        }
    }
};

template <class T> void encode(Enc &e, const T &v, std::uint64_t version = 0)
{
    constexpr auto c = cat<T>();
    if constexpr (c == Cat::Bool)
        e.u(v ? 1 : 0, 1);
    else if constexpr (c == Cat::Int)
        e.u(static_cast<std::uint64_t>(v), sizeof(T));
    else if constexpr (c == Cat::Flt) {
        std::uint64_t bits = 0;
        if constexpr (sizeof(T) == 4) {
            std::uint32_t b;
            std::memcpy(&b, &v, 4);
            bits = b;
        } else
            std::memcpy(&bits, &v, 8);
        e.u(bits, sizeof(T));
    } else if constexpr (c == Cat::Enum)
        encode(e, static_cast<std::underlying_type_t<T>>(v), version);
    else if constexpr (c == Cat::Str) {
        e.varlen(v.size());
        e.out += v;
    } else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::MSet || c == Cat::Map || c == Cat::MMap) {
        e.varlen(static_cast<std::uint64_t>(std::distance(v.begin(), v.end())));
        for (auto &x : v)
            encode(e, x, version);
    } else if constexpr (c == Cat::Pair) {
        encode(e, v.first, version);
        encode(e, v.second, version);
    } else if constexpr (c == Cat::UPtr || c == Cat::Opt) {
        e.u(v ? 1 : 0, 1);
        if (v)
            encode(e, *v, version);
    } else if constexpr (c == Cat::SPtr) {
        if (!v) {
            e.u(0, 1);
            return;
        }
        if (e.breakRefs && !e.used.empty() && e.breakRefs->chance(25)) { // refer to arbitrary other object
            auto i = e.used.begin();
            std::advance(i, static_cast<std::ptrdiff_t>(e.breakRefs->below(e.used.size())));
            const auto id = *i + (e.breakRefs->chance(8) ? 1 : 0);
            const bool big = id >= (std::uint64_t(1) << 55);
            const bool first = e.breakRefs->chance(15); // reuse identifier for new object
            e.u((first ? 1u : 2u) | (big ? 4u : 0u), 1);
            big ? e.u(id, 8) : e.varlen(id);
            if (first)
                encode(e, *v, version);
            return;
        }
        const void *const p = v.get();
        auto k = e.known.find(p);
        const bool first = k == e.known.end();
        std::uint64_t id = 0;
        if (e.actual) { // take the identifier from the bytes at this position
            const auto &a = *e.actual;
            auto i = e.out.size();
            const auto mode = i < a.size() ? static_cast<unsigned char>(a[i]) : 0u;
            ++i;
            if (mode & 4u) {
                for (int n = 0; n != 8; ++n, ++i)
                    id = (id << 8) | (i < a.size() ? static_cast<unsigned char>(a[i]) : 0u);
                ++e.bigIds;
            } else {
                const auto b = i < a.size() ? static_cast<unsigned char>(a[i]) : 0u;
                int n = 1;
                while (n < 8 && !(b & (0x100u >> n)))
                    ++n;
                for (int k2 = 0; k2 != n; ++k2, ++i)
                    id = (id << 8) | (i < a.size() ? static_cast<unsigned char>(a[i]) : 0u);
                id &= ~(std::uint64_t(1) << (7 * n));
            }
            if (first && !e.used.insert(id).second && e.problem.empty())
                e.problem = "identifier used for two different objects";
            if (!first && k->second != id && e.problem.empty())
                e.problem = "different identifiers used for the same object";
        } else
            id = first ? e.newId() : k->second;
        const bool big = id >= (std::uint64_t(1) << 55);
        e.u((first ? 1u : 2u) | (big ? 4u : 0u), 1);
        big ? e.u(id, 8) : e.varlen(id);
        if (first) {
            ++e.firstOcc;
            e.known.emplace(p, id);
            encode(e, *v, version);
        } else
            ++e.repeated;
    } else if constexpr (c == Cat::Var) {
        e.u(v.index(), 1);
        forAlternative<T>(v.index(), [&](auto i) { encode(e, std::get<i.value>(v), version); });
    } else if constexpr (c == Cat::Mono) {
    } else if constexpr (c == Cat::Struct) {
        using D = Desc<T>;
        D::bases([&](auto t) {
            using B = typename decltype(t)::type;
            if constexpr (decltype(t)::bin)
                encode(e, static_cast<const B &>(v), version);
        });
        if (D::version) {
            if (!version || version > D::version)
                version = D::version;
            if (e.versions++ == e.bumpAt) {
                e.varlen(e.bumpTo);
                e.bumped = D::name;
                e.bumpedMax = D::version;
            } else
                e.varlen(version);
        }
        D::fields(v, [&](auto fm, auto &f) {
            using F = decltype(fm);
            if constexpr ((F::bwrite || F::bread) && !F::isConst) {
                if ((e.forReader ? F::bread : F::bwrite) && (!F::asOf || version >= F::asOf) && (!F::until || version <= F::until))
                    encode(e, f, version);
            }
        });
    } else
        CustomBin<T>::encode(e, v, version);
}

struct DecodeFailure {
    std::string why;
    bool version = false; // version not supported
    std::uint64_t present = 0, max = 0;
    std::string record;
};
struct Dec {
    std::string_view in;
    std::size_t pos = 0;
    bool undecided = false; // bytes have no defined meaning (but must not do harm)
    struct Ref {
        std::type_index type = typeid(void);
        std::shared_ptr<void> p;
    };
    std::map<std::uint64_t, Ref> refs;
    std::uint64_t repeated = 0;

    unsigned char byte()
    {
        if (pos >= in.size())
            throw DecodeFailure{ "end of data" };
        return static_cast<unsigned char>(in[pos++]);
    }
    std::uint64_t u(int n)
    {
        std::uint64_t v = 0;
        if (in.size() - pos < static_cast<std::size_t>(n)) {
            pos = in.size();
            throw DecodeFailure{ "end of data" };
        }
        for (; n; --n)
            v = (v << 8) | byte();
        return v;
    }
    std::uint64_t varlen()
    {
        const auto b = byte();
        if (!b)
            throw DecodeFailure{ "invalid length" };
        int n = 1;
        while (!(b & (0x100u >> n)))
            ++n;
        --pos;
        return u(n) & ~(std::uint64_t(1) << (7 * n));
    }
};
template <class T> std::uint64_t decode(Dec &d, T &v, std::uint64_t version = 0)
{
    constexpr auto c = cat<T>();
    if constexpr (c == Cat::Bool)
        v = d.byte() != 0;
    else if constexpr (c == Cat::Int)
        v = static_cast<T>(d.u(sizeof(T)));
    else if constexpr (c == Cat::Flt) {
        const auto bits = d.u(sizeof(T));
        if constexpr (sizeof(T) == 4) {
            const auto b = static_cast<std::uint32_t>(bits);
            std::memcpy(&v, &b, 4);
        } else
            std::memcpy(&v, &bits, 8);
    } else if constexpr (c == Cat::Enum) {
        std::underlying_type_t<T> u;
        decode(d, u, version);
        v = static_cast<T>(u);
    } else if constexpr (c == Cat::Str) {
        const auto n = d.varlen();
        if (n > d.in.size() - d.pos)
            throw DecodeFailure{ "end of data in string" };
        v.assign(d.in.data() + d.pos, n);
        d.pos += n;
    } else if constexpr (c == Cat::Seq) {
        v.clear();
        for (auto n = d.varlen(); n; --n) {
            typename T::value_type e = [] {
                if constexpr (cat<typename T::value_type>() == Cat::Struct)
                    return Desc<typename T::value_type>::make();
                else
                    return typename T::value_type();
            }();
            decode(d, e, version);
            v.emplace_back(std::move(e));
        }
    } else if constexpr (c == Cat::Set || c == Cat::MSet) {
        v.clear();
        for (auto n = d.varlen(); n; --n) {
            typename T::value_type e{};
            decode(d, e, version);
            v.insert(std::move(e));
        }
    } else if constexpr (c == Cat::Map || c == Cat::MMap) {
        v.clear();
        for (auto n = d.varlen(); n; --n) {
            std::pair<typename T::key_type, typename T::mapped_type> e{};
            decode(d, e.first, version);
            decode(d, e.second, version);
            v.insert(typename T::value_type(std::move(e.first), std::move(e.second)));
        }
    } else if constexpr (c == Cat::Pair) {
        decode(d, v.first, version);
        decode(d, v.second, version);
    } else if constexpr (c == Cat::UPtr) {
        if (d.byte()) {
            v.reset(new typename T::element_type());
            decode(d, *v, version);
        } else
            v.reset();
    } else if constexpr (c == Cat::Opt) {
        if (d.byte()) {
            v.reset();
            decode(d, v.emplace(), version);
        } else
            v.reset();
    } else if constexpr (c == Cat::SPtr) {
        using E = typename T::element_type;
        const auto mode = d.byte();
        if (!mode) {
            v.reset();
            return version;
        }
        if (mode != 1 && mode != 2 && mode != 5 && mode != 6)
            d.undecided = true;
        const auto id = (mode & 4) ? d.u(8) : d.varlen();
        if ((mode & 3) == 1) {
            v.reset(new E());
            d.refs[id] = Dec::Ref{ typeid(E), v };
            decode(d, *v, version);
            return version;
        }
        const auto i = d.refs.find(id);
        if (i == d.refs.end())
            throw DecodeFailure{ "unknown reference" };
        if (i->second.type != typeid(E))
            throw DecodeFailure{ "reference of other type" };
        v = std::static_pointer_cast<E>(i->second.p);
        ++d.repeated;
    } else if constexpr (c == Cat::Var) {
        const auto i = d.byte();
        if (i >= std::variant_size_v<T>)
            throw DecodeFailure{ "variant index out of range" };
        forAlternative<T>(i, [&](auto k) { decode(d, v.template emplace<k.value>(), version); });
    } else if constexpr (c == Cat::Mono) {
    } else if constexpr (c == Cat::Struct) {
        using D = Desc<T>;
        D::bases([&](auto t) {
            using B = typename decltype(t)::type;
            if constexpr (decltype(t)::bin)
                decode(d, static_cast<B &>(v), version);
        });
        if (D::version) {
            version = d.varlen();
            if (version > D::version)
                throw DecodeFailure{ "version not supported", true, version, D::version, D::name };
        }
        D::fields(v, [&](auto fm, auto &f) {
            using F = decltype(fm);
            if constexpr (F::bread && !F::isConst) {
                if ((!F::asOf || version >= F::asOf) && (!F::until || version <= F::until))
                    decode(d, f, version);
            }
        });
        return version;
    } else
        CustomBin<T>::decode(d, v, version);
    return version;
}

inline std::string hex(std::string_view s, std::size_t limit = 600)
{
    static const char *digits = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s.substr(0, limit)) {
        r += digits[c >> 4];
        r += digits[c & 15];
    }
    if (s.size() > limit)
        r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
} // namespace vh
