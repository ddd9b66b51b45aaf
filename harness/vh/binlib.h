// Glue between the binary part of the library under test and the reference model.
#pragma once
#include "refbin.h"
#include "report.h"
#include <reflective_rapidjson/binary/reflector.h>
#include <reflective_rapidjson/binary/serializable.h>
#include <sstream>

namespace vh {
namespace RR = ::ReflectiveRapidJSON;
namespace BR = ::ReflectiveRapidJSON::BinaryReflector;

// input stream buffer over bytes in a heap block of exactly the right size; optionally delivers small pieces and fails at a position
struct InBuf : std::streambuf {
    std::unique_ptr<char[]> p;
    std::size_t n, at = 0;
    Rng *pieces = nullptr;
    std::size_t failAt = static_cast<std::size_t>(-1);
    bool *failed = nullptr;
    explicit InBuf(std::string_view s)
        : p(new char[s.size()])
        , n(s.size())
    {
        std::memcpy(p.get(), s.data(), n);
        setg(p.get(), p.get(), p.get());
    }
    int_type underflow() override
    {
        if (gptr() < egptr())
            return traits_type::to_int_type(*gptr());
        at = static_cast<std::size_t>(egptr() - p.get());
        auto end = std::min(n, failAt);
        if (at >= end) {
            if (at == failAt) {
                if (failed)
                    *failed = true;
                throw std::runtime_error("simulated I/O error");
            }
            return traits_type::eof();
        }
        if (pieces)
            end = std::min<std::size_t>(end, at + 1 + pieces->below(5));
        setg(p.get() + at, p.get() + at, p.get() + end);
        return traits_type::to_int_type(*gptr());
    }
    std::size_t consumed() const { return static_cast<std::size_t>(gptr() - p.get()); }
};
template <class T> T fresh()
{
    if constexpr (cat<T>() == Cat::Struct)
        return Desc<T>::make();
    else
        return T();
}
// outcome of reading something with the library
template <class T> struct ReadResult {
    bool ok = false;
    std::string what; // exception
    bool stream = false, conversion = false, versionError = false, alloc = false, other = false;
    std::uint64_t presentVersion = 0, maxVersion = 0, stored = 0;
    std::string record;
    std::size_t consumed = 0;
};
template <class T, class F> ReadResult<T> guardedRead(F &&f)
{
    ReadResult<T> r;
    try {
        f(r);
        r.ok = true;
    } catch (const std::ios_base::failure &e) {
        r.stream = true;
        r.what = std::string("ios failure ") + e.what();
    } catch (const CppUtilities::ConversionException &e) {
        r.conversion = true;
        r.what = std::string("conversion exception ") + e.what();
    } catch (const RR::BinaryVersionNotSupported &e) {
        r.versionError = true;
        r.presentVersion = e.presentVersion;
        r.maxVersion = e.maxVersion;
        r.record = e.record ? e.record : "(null)";
        r.what = "version not supported";
    } catch (const std::bad_alloc &) {
        r.alloc = true;
        r.what = "bad_alloc";
    } catch (const std::length_error &) {
        r.alloc = true;
        r.what = "length_error";
    } catch (const std::exception &e) {
        r.other = true;
        r.what = std::string("other exception ") + e.what();
    }
    return r;
}
template <class T> std::string written(const T &v, std::uint64_t version = 0)
{
    std::ostringstream os;
    os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    BR::BinarySerializer(&os).write(v, version);
    return os.str();
}
// reads bytes into target
template <class T> ReadResult<T> readInto(T &target, std::string_view bytes, std::uint64_t version = 0)
{
    InBuf buf(bytes);
    std::istream is(&buf);
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
    auto r = guardedRead<T>([&](auto &res) {
        BR::BinaryDeserializer d(&is);
        if constexpr (cat<T>() == Cat::Struct)
            res.stored = d.read(target, version);
        else
            d.read(target, version);
    });
    r.consumed = buf.consumed();
    return r;
}
// whether the order of elements in an unordered container was ambiguous when visiting
inline bool &ambiguousOrder()
{
    static thread_local bool b = false;
    return b;
}
// visits all shared pointers within a value (optionally with elements of unordered containers ordered by content)
template <bool sort = false, class T, class F> void visitShared(const T &v, F &&f)
{
    constexpr auto c = cat<T>();
    if constexpr (sort && IsUnordered<T>::value) {
        std::multimap<std::string, const typename T::value_type *> sorted;
        for (auto &x : v)
            sorted.emplace(dumped(x), &x);
        const std::string *prev = nullptr;
        for (auto &x : sorted) {
            if (prev && *prev == x.first)
                ambiguousOrder() = true;
            prev = &x.first;
            visitShared<sort>(*x.second, f);
        }
    } else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::MSet || c == Cat::Map || c == Cat::MMap) {
        for (auto &x : v)
            visitShared<sort>(x, f);
    } else if constexpr (c == Cat::Pair) {
        visitShared<sort>(v.first, f);
        visitShared<sort>(v.second, f);
    } else if constexpr (c == Cat::UPtr || c == Cat::Opt) {
        if (v)
            visitShared<sort>(*v, f);
    } else if constexpr (c == Cat::SPtr) {
        if (f(v))
            visitShared<sort>(*v, f);
    } else if constexpr (c == Cat::Tuple)
        forTuple<T>([&](auto i) { visitShared<sort>(std::get<i.value>(v), f); });
    else if constexpr (c == Cat::Var)
        forAlternative<T>(v.index(), [&](auto i) { visitShared<sort>(std::get<i.value>(v), f); });
    else if constexpr (c == Cat::Struct) {
        Desc<T>::bases([&](auto t) { visitShared<sort>(static_cast<const typename decltype(t)::type &>(v), f); });
        Desc<T>::fields(v, [&](auto, auto &m) { visitShared<sort>(m, f); });
    }
}
// canonical numbering of the sharing structure (or an empty string if ambiguous)
template <class T> std::string sharing(const T &v)
{
    std::map<const void *, int> ids;
    std::string s;
    ambiguousOrder() = false;
    visitShared<true>(v, [&](auto &p) {
        if (!p) {
            s += "-,";
            return false;
        }
        const auto r = ids.emplace(p.get(), static_cast<int>(ids.size()));
        s += std::to_string(r.first->second) + ",";
        return r.second;
    });
    if (ambiguousOrder())
        s.clear();
    return s;
}
template <class T> constexpr bool holdsStruct()
{
    constexpr auto c = cat<T>();
    if constexpr (c == Cat::Struct)
        return true;
    else if constexpr (c == Cat::Seq)
        return holdsStruct<typename T::value_type>();
    else if constexpr (c == Cat::Pair)
        return holdsStruct<typename T::first_type>() || holdsStruct<typename T::second_type>();
    else
        return false;
}
} // namespace vh
