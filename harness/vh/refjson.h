// Reference model of the documented JSON mapping: push (value -> document) and pull (document -> value + errors).
// Written from the documentation (README and API documentation); does not use the library.
#pragma once
#include "json.h"

namespace vh {

// hooks for types with special mapping (chrono, user specialisations): specialise CustomGen<T> with
//   static void into(Rng&, T&); static bool eq(const T&, const T&); static void dump(std::string&, const T&);
//   static J push(const T&); static void pull(T&, const J&, PullCtx&);
//   template<class W> encode / decode see refbin.h

enum class EK { TypeMismatch, ArraySizeMismatch, ConversionError, UnexpectedDuplicate, InvalidVariantObject, InvalidVariantIndex };
enum class JT { Null, Number, Bool, String, Array, Object };
inline const char *name(EK k)
{
    static const char *n[] = { "TypeMismatch", "ArraySizeMismatch", "ConversionError", "UnexpectedDuplicate", "InvalidVariantObject", "InvalidVariantIndex" };
    return n[static_cast<int>(k)];
}
inline const char *name(JT k)
{
    static const char *n[] = { "Null", "Number", "Bool", "String", "Array", "Object" };
    return n[static_cast<int>(k)];
}
inline JT jt(const J &j)
{
    switch (j.k) {
    case J::Null: return JT::Null;
    case J::Bool: return JT::Bool;
    case J::Num: return JT::Number;
    case J::Str: return JT::String;
    case J::Arr: return JT::Array;
    default: return JT::Object;
    }
}
constexpr std::size_t noIndex = static_cast<std::size_t>(-1);
struct Err {
    EK kind;
    JT exp, act;
    std::string record;
    bool hasMember;
    std::string member;
    std::size_t index;
    bool operator<(const Err &o) const
    {
        return std::tie(kind, exp, act, record, hasMember, member, index) < std::tie(o.kind, o.exp, o.act, o.record, o.hasMember, o.member, o.index);
    }
    bool operator==(const Err &o) const { return !(*this < o) && !(o < *this); }
    bool operator!=(const Err &o) const { return !(*this == o); }
    std::string text() const
    {
        std::string s = name(kind);
        s += "(";
        s += name(exp);
        s += ",";
        s += name(act);
        s += ")@";
        s += record;
        s += hasMember ? "::" + member : std::string("::-");
        s += index == noIndex ? std::string("[-]") : "[" + std::to_string(index) + "]";
        return s;
    }
};
inline std::string text(const std::vector<Err> &v)
{
    std::string s = "{";
    for (auto &e : v)
        s += (s.size() > 1 ? ", " : "") + e.text();
    return s + "}";
}
struct PullCtx {
    std::string record = "[document]";
    bool hasMember = false;
    std::string member;
    std::size_t index = noIndex;
    std::vector<Err> errors;
    void report(EK k, JT exp, JT act) { errors.push_back(Err{ k, exp, act, record, hasMember, member, index }); }
};

// the JSON type documented for a C++ type
template <class T> constexpr JT expectedType()
{
    constexpr auto c = cat<T>();
    if constexpr (c == Cat::Bool)
        return JT::Bool;
    else if constexpr (c == Cat::Int || c == Cat::Flt || c == Cat::Enum)
        return JT::Number;
    else if constexpr (c == Cat::Str || c == Cat::CStr || c == Cat::SView)
        return JT::String;
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::MSet || c == Cat::Pair || c == Cat::Tuple)
        return JT::Array;
    else
        return JT::Object;
}

template <class T> J refPush(const T &v);
template <class T> void refPushInto(const T &v, J &obj)
{
    Desc<T>::bases([&](auto b) {
        if constexpr (decltype(b)::json)
            refPushInto(static_cast<const typename decltype(b)::type &>(v), obj);
    });
    Desc<T>::fields(v, [&](auto fm, auto &f) {
        if constexpr (decltype(fm)::jpush)
            obj.o.emplace_back(fm.name, refPush(f));
    });
}
template <class T> J refPush(const T &v)
{
    constexpr auto c = cat<T>();
    if constexpr (c == Cat::Bool)
        return J::boolean(v);
    else if constexpr (c == Cat::Int) {
        if constexpr (std::is_signed_v<T>)
            return J::num(intLit(static_cast<std::int64_t>(v)));
        else
            return J::num(intLit(static_cast<std::uint64_t>(v)));
    } else if constexpr (c == Cat::Enum) {
        using U = std::underlying_type_t<T>;
        if constexpr (std::is_signed_v<U>)
            return J::num(intLit(static_cast<std::int64_t>(v)));
        else
            return J::num(intLit(static_cast<std::uint64_t>(v)));
    } else if constexpr (c == Cat::Flt)
        return J::num(dblLit(static_cast<double>(v)));
    else if constexpr (c == Cat::Str)
        return J::str(v);
    else if constexpr (c == Cat::CStr)
        return v ? J::str(v) : J::null();
    else if constexpr (c == Cat::SView)
        return v.data() ? J::str(std::string(v)) : J::null();
    else if constexpr (c == Cat::Seq || c == Cat::Set || c == Cat::MSet) {
        auto j = J::arr();
        for (const auto &x : v)
            j.a.push_back(refPush(x));
        return j;
    } else if constexpr (c == Cat::Map) {
        auto j = J::obj();
        for (const auto &x : v)
            j.o.emplace_back(x.first, refPush(x.second));
        return j;
    } else if constexpr (c == Cat::MMap) {
        auto j = J::obj();
        std::map<std::string_view, std::size_t> where;
        for (const auto &x : v) {
            auto it = where.find(x.first);
            if (it == where.end()) {
                it = where.emplace(x.first, j.o.size()).first;
                j.o.emplace_back(x.first, J::arr());
            }
            j.o[it->second].second.a.push_back(refPush(x.second));
        }
        return j;
    } else if constexpr (c == Cat::Pair) {
        auto j = J::arr();
        j.a.push_back(refPush(v.first));
        j.a.push_back(refPush(v.second));
        return j;
    } else if constexpr (c == Cat::Tuple) {
        auto j = J::arr();
        std::apply([&](auto &...e) { (j.a.push_back(refPush(e)), ...); }, v);
        return j;
    } else if constexpr (c == Cat::UPtr || c == Cat::SPtr || c == Cat::Opt)
        return v ? refPush(*v) : J::null();
    else if constexpr (c == Cat::Var) {
        auto j = J::obj();
        j.o.emplace_back("index", J::num(intLit(static_cast<std::uint64_t>(v.index()))));
        j.o.emplace_back("data", J::null());
        forAlternative<T>(v.index(), [&](auto i) { j.o.back().second = refPush(std::get<i.value>(v)); });
        return j;
    } else if constexpr (c == Cat::Mono)
        return J::null();
    else if constexpr (c == Cat::Struct) {
        auto j = J::obj();
        refPushInto(v, j);
        return j;
    } else
        return CustomGen<T>::push(v);
}

template <class T> void refPull(T &v, const J &j, PullCtx &c);
template <class T> void refPullObject(T &v, const J &j, PullCtx &c)
{
    Desc<T>::bases([&](auto b) {
        if constexpr (decltype(b)::json)
            refPullObject(static_cast<typename decltype(b)::type &>(v), j, c);
    });
    const auto previousRecord = c.record;
    if (!Desc<T>::hana)
        c.record = Desc<T>::name;
    Desc<T>::fields(v, [&](auto fm, auto &f) {
        if constexpr (decltype(fm)::jpull) {
            const J *m = j.find(fm.name);
            if (!m)
                return;
            const auto previousMember = c.member;
            const auto hadMember = c.hasMember;
            c.member = fm.name;
            c.hasMember = true;
            refPull(f, *m, c);
            c.member = previousMember;
            c.hasMember = hadMember;
        }
    });
    c.record = previousRecord;
}
template <class T> bool convertible(const NumVal &n)
{
    if constexpr (std::is_floating_point_v<T>)
        return std::fabs(n.d) <= static_cast<double>(std::numeric_limits<T>::max());
    else {
        if (n.k == NumVal::U && sizeof(T) >= 4)
            if (n.u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max()))
                return true;
        const long double t = truncl(static_cast<long double>(n.d));
        return t >= static_cast<long double>(std::numeric_limits<T>::min()) && t <= static_cast<long double>(std::numeric_limits<T>::max());
    }
}
template <class T> void refPull(T &v, const J &j, PullCtx &c)
{
    constexpr auto k = cat<T>();
    const auto mismatch = [&] { c.report(EK::TypeMismatch, expectedType<T>(), jt(j)); };
    if constexpr (k == Cat::Bool) {
        if (j.k != J::Bool)
            return mismatch();
        v = j.b;
    } else if constexpr (k == Cat::Int || k == Cat::Flt) {
        if (j.k != J::Num)
            return mismatch();
        const auto n = classify(j.s);
        if (!convertible<T>(n))
            return c.report(EK::ConversionError, JT::Number, JT::Number);
        if constexpr (k == Cat::Flt)
            v = static_cast<T>(n.d);
        else if (n.k == NumVal::U && n.u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max()))
            v = static_cast<T>(n.u);
        else if (n.k == NumVal::I && std::is_signed_v<T> && n.i >= static_cast<std::int64_t>(std::numeric_limits<T>::min()))
            v = static_cast<T>(n.i);
        else
            v = static_cast<T>(truncl(static_cast<long double>(n.d)));
    } else if constexpr (k == Cat::Enum) {
        using U = std::underlying_type_t<T>;
        if (j.k != J::Num)
            return mismatch();
        const auto n = classify(j.s);
        if (std::is_unsigned_v<U> ? !n.isUint64() : !n.isInt64())
            return mismatch();
        if constexpr (std::is_unsigned_v<U>) {
            if (n.u > std::numeric_limits<U>::max())
                return c.report(EK::ConversionError, JT::Number, JT::Number);
            v = static_cast<T>(static_cast<U>(n.u));
        } else {
            const auto i = n.asInt64();
            if (i < std::numeric_limits<U>::min() || i > std::numeric_limits<U>::max())
                return c.report(EK::ConversionError, JT::Number, JT::Number);
            v = static_cast<T>(static_cast<U>(i));
        }
    } else if constexpr (k == Cat::Str) {
        if (j.k != J::Str)
            return mismatch();
        v = j.s;
    } else if constexpr (k == Cat::CStr || k == Cat::SView) {
        if (j.k != J::Str)
            mismatch();
    } else if constexpr (k == Cat::Seq || k == Cat::Set || k == Cat::MSet) {
        if (j.k != J::Arr)
            return mismatch();
        v.clear();
        const auto previousIndex = c.index;
        std::size_t i = 0;
        for (const auto &e : j.a) {
            c.index = i++;
            if constexpr (k == Cat::Seq) {
                v.emplace_back();
                refPull(v.back(), e, c);
            } else {
                auto x = typename T::value_type();
                refPull(x, e, c);
                if constexpr (k == Cat::Set) {
                    if (!v.insert(std::move(x)).second)
                        c.report(EK::UnexpectedDuplicate, JT::Array, JT::Array);
                } else
                    v.insert(std::move(x));
            }
        }
        c.index = previousIndex;
    } else if constexpr (k == Cat::Map) {
        if (j.k != J::Obj)
            return mismatch();
        v.clear();
        for (const auto &m : j.o)
            refPull(v[m.first], m.second, c);
    } else if constexpr (k == Cat::MMap) {
        if (j.k != J::Obj)
            return mismatch();
        v.clear();
        for (const auto &m : j.o) {
            const auto add = [&](const J &e) {
                auto it = v.insert(typename T::value_type(m.first, typename T::mapped_type()));
                refPull(it->second, e, c);
            };
            if (m.second.k == J::Arr)
                for (const auto &e : m.second.a)
                    add(e);
            else
                add(m.second);
        }
    } else if constexpr (k == Cat::Pair) {
        if (j.k != J::Arr)
            return mismatch();
        if (j.a.size() != 2)
            return c.report(EK::ArraySizeMismatch, JT::Array, JT::Array);
        refPull(v.first, j.a[0], c);
        refPull(v.second, j.a[1], c);
    } else if constexpr (k == Cat::Tuple) {
        if (j.k != J::Arr)
            return mismatch();
        if (j.a.size() != std::tuple_size_v<T>)
            return c.report(EK::ArraySizeMismatch, JT::Array, JT::Array);
        forTuple<T>([&](auto i) { refPull(std::get<i.value>(v), j.a[i.value], c); });
    } else if constexpr (k == Cat::UPtr || k == Cat::SPtr) {
        if (j.k == J::Null)
            return v.reset();
        v = T(new typename T::element_type());
        refPull(*v, j, c);
    } else if constexpr (k == Cat::Opt) {
        if (j.k == J::Null)
            return v.reset();
        refPull(v.emplace(), j, c);
    } else if constexpr (k == Cat::Var) {
        if (j.k != J::Obj)
            return mismatch();
        const J *index = j.find("index"), *data = j.find("data");
        if (!index || !data)
            return c.report(EK::InvalidVariantObject, JT::Object, JT::Object);
        NumVal n;
        if (index->k != J::Num || !(n = classify(index->s)).isUint64())
            return c.report(EK::InvalidVariantIndex, JT::Number, jt(*index));
        if (n.u >= std::variant_size_v<T>)
            return c.report(EK::InvalidVariantIndex, JT::Number, JT::Number);
        forAlternative<T>(n.u, [&](auto i) { refPull(v.template emplace<i.value>(), *data, c); });
    } else if constexpr (k == Cat::Mono) {
    } else if constexpr (k == Cat::Struct) {
        if (j.k != J::Obj)
            return mismatch();
        refPullObject(v, j, c);
    } else
        CustomGen<T>::pull(v, j, c);
}
} // namespace vh
