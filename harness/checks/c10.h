// C10: sharing of objects referenced via std::shared_ptr
#include "../vh/binlib.h"
#include "c10types.h"
#include <reflective_rapidjson/json/reflector.h>
#include <sanitizer/lsan_interface.h>
#include <unordered_map>
#define VH_DESC(T, NAME)                                                                                                                             \
    template <> struct vh::Desc<T> {                                                                                                                 \
        static constexpr bool is = true, hana = false;                                                                                               \
        static constexpr const char *name = NAME;                                                                                                    \
        static constexpr std::uint64_t version = 0;                                                                                                  \
        static T make() { return T(); }
#define VH_NOBASES                                                                                                                                   \
    template <class F> static void bases(F &&) {}
#define VH_FIELDS template <class O, class F> static void fields(O &o, F &&f)
using FmAll = vh::Fm<true, true, true, true, false>;
VH_DESC(g::Leaf, "g::Leaf") VH_NOBASES VH_FIELDS { f(FmAll{ "text" }, o.text); f(FmAll{ "back" }, o.back); f(FmAll{ "number" }, o.number); } };
VH_DESC(g::Holder, "g::Holder") VH_NOBASES VH_FIELDS { f(FmAll{ "node" }, o.node); f(FmAll{ "pair" }, o.pair); f(FmAll{ "lists" }, o.lists); } };
VH_DESC(g::Node, "g::Node") VH_NOBASES VH_FIELDS
{
    f(FmAll{ "value" }, o.value); f(FmAll{ "a" }, o.a); f(FmAll{ "list" }, o.list); f(FmAll{ "leaves" }, o.leaves); f(FmAll{ "opt" }, o.opt); f(FmAll{ "var" }, o.var);
    f(FmAll{ "holder" }, o.holder); f(FmAll{ "strings" }, o.strings); f(FmAll{ "hash" }, o.hash); f(FmAll{ "doubles" }, o.doubles);
} };
VH_DESC(g::Derived, "g::Derived")
    template <class F> static void bases(F &&f) { f(vh::BaseTag<g::Node, false, true>()); }
    VH_FIELDS { f(FmAll{ "other" }, o.other); f(FmAll{ "last" }, o.last); } };
VH_DESC(g::Dag, "g::Dag") VH_NOBASES VH_FIELDS
{
    f(FmAll{ "value" }, o.value); f(FmAll{ "a" }, o.a); f(FmAll{ "b" }, o.b); f(FmAll{ "list" }, o.list); f(FmAll{ "strings" }, o.strings); f(FmAll{ "var" }, o.var);
} };

namespace vhcheck {
using namespace vh;
namespace JR = ::ReflectiveRapidJSON::JsonReflector;

// lockstep comparison establishing a bijection between the shared objects of both sides
struct Iso {
    std::map<const void *, const void *> ab, ba;
    std::map<const void *, long> refsA, refsB; // number of pointers found
    std::map<const void *, long> useB;
    std::string why;
    bool fail(const std::string &w)
    {
        if (why.empty())
            why = w;
        return false;
    }
    template <class T> bool eq(const T &a, const T &b)
    {
        constexpr auto c = cat<T>();
        if constexpr (c == Cat::SPtr) {
            if (!a || !b)
                return !a == !b ? true : fail("null and non-null pointer");
            ++refsA[a.get()], ++refsB[b.get()];
            useB[b.get()] = b.use_count();
            const auto i = ab.find(a.get());
            const auto j = ba.find(b.get());
            if (i == ab.end() && j == ba.end()) {
                ab[a.get()] = b.get();
                ba[b.get()] = a.get();
                if (static_cast<const void *>(a.get()) == b.get())
                    return fail("restored pointer refers to original object");
                return eq(*a, *b);
            }
            if (i == ab.end())
                return fail("distinct objects became the same one");
            if (j == ba.end())
                return fail("shared object became distinct ones");
            return i->second == b.get() ? true : fail("pointer refers to other object");
        } else if constexpr (IsUnordered<T>::value) {
            if (a.size() != b.size())
                return fail("size of hash");
            for (auto &x : a) {
                const auto i = b.find(x.first);
                if (i == b.end())
                    return fail("missing key");
                if (!eq(x.second, i->second))
                    return false;
            }
            return true;
        } else if constexpr (c == Cat::Seq || c == Cat::Map || c == Cat::MMap) {
            if (a.size() != b.size())
                return fail("container size");
            auto i = a.begin();
            for (auto j = b.begin(); j != b.end(); ++i, ++j)
                if (!eq(*i, *j))
                    return false;
            return true;
        } else if constexpr (c == Cat::Pair)
            return eq(a.first, b.first) && eq(a.second, b.second);
        else if constexpr (c == Cat::UPtr || c == Cat::Opt)
            return a && b ? eq(*a, *b) : (!a == !b ? true : fail("optional presence"));
        else if constexpr (c == Cat::Var) {
            if (a.index() != b.index())
                return fail("variant index");
            bool ok = true;
            forAlternative<T>(a.index(), [&](auto i) { ok = eq(std::get<i.value>(a), std::get<i.value>(b)); });
            return ok;
        } else if constexpr (c == Cat::Struct) {
            bool ok = true;
            Desc<T>::bases([&](auto t) {
                using B = typename decltype(t)::type;
                ok = ok && eq(static_cast<const B &>(a), static_cast<const B &>(b));
            });
            std::vector<const void *> fb;
            Desc<T>::fields(b, [&](auto, auto &f) { fb.push_back(&f); });
            std::size_t i = 0;
            Desc<T>::fields(a, [&](auto fm, auto &f) {
                ok = ok && (eq(f, *static_cast<std::remove_reference_t<decltype(f)> *>(fb[i])) || fail(std::string("member ") + fm.name));
                ++i;
            });
            return ok;
        } else
            return same(a, b) ? true : fail("value " + dumped(a) + " became " + dumped(b));
    }
    void checkUse()
    {
        for (auto &u : useB)
            if (u.second != refsB[u.first])
                fail("restored object is referenced " + std::to_string(refsB[u.first]) + " times but its use count is " + std::to_string(u.second));
    }
};

// owner of the shared objects of a graph; breaks cycles on destruction
struct Pool {
    std::vector<std::shared_ptr<g::Node>> nodes;
    std::vector<std::shared_ptr<g::Derived>> derived;
    std::vector<std::shared_ptr<g::Leaf>> leaves;
    std::vector<std::shared_ptr<int>> ints;
    std::vector<std::shared_ptr<std::string>> strings;
    std::vector<std::shared_ptr<double>> doubles;
    std::vector<std::shared_ptr<std::vector<std::shared_ptr<g::Leaf>>>> lists;
    static void unlink(g::Node &n)
    {
        n.a.reset(), n.list.clear(), n.leaves.clear(), n.opt.reset(), n.var = std::monostate(), n.hash.clear();
        n.holder.reset();
    }
    ~Pool()
    {
        for (auto &n : nodes)
            unlink(*n);
        for (auto &d : derived)
            unlink(*d), d->other.reset(), d->last.reset();
        for (auto &l : leaves)
            l->back.reset();
        for (auto &l : lists)
            l->clear();
    }
    template <class T> std::shared_ptr<T> some(Rng &r, const std::vector<std::shared_ptr<T>> &v)
    {
        return v.empty() || r.chance(25) ? std::shared_ptr<T>() : v[r.below(v.size())];
    }
    void fill(Rng &r, g::Node &n)
    {
        n.value = static_cast<int>(r.below(1000));
        if (r.chance(60))
            n.a = some(r, nodes);
        for (auto k = r.below(4); k; --k)
            n.list.push_back(some(r, nodes));
        for (auto k = r.below(3); k; --k)
            n.leaves[std::string(1, static_cast<char>('a' + r.below(4)))] = some(r, leaves);
        if (r.chance(30))
            n.opt = some(r, nodes);
        switch (r.below(4)) {
        case 1:
            n.var = some(r, nodes);
            break;
        case 2:
            n.var = some(r, leaves);
            break;
        case 3:
            n.var = static_cast<int>(r.below(9));
        }
        if (r.chance(30)) {
            n.holder.reset(new g::Holder);
            n.holder->node = some(r, nodes);
            n.holder->pair = { some(r, ints), some(r, strings) };
            for (auto k = r.below(3); k; --k)
                n.holder->lists.push_back(some(r, lists));
        }
        for (auto k = r.below(3); k; --k)
            n.strings.push_back(some(r, strings));
        for (auto k = r.below(3); k; --k)
            n.hash[static_cast<int>(r.below(5))] = some(r, nodes);
        for (auto k = r.below(3); k; --k)
            n.doubles.emplace(static_cast<int>(r.below(3)), some(r, doubles));
    }
    void make(Rng &r)
    {
        const auto n = 1 + r.below(r.chance(20) ? 30 : 7);
        const std::shared_ptr<int[]> array(new int[8]());
        for (auto k = r.below(4); k; --k)
            if (r.chance(50)) {
                ints.push_back(std::make_shared<int>(static_cast<int>(r.below(100))));
            } else {
                array[k] = static_cast<int>(r.below(100));
                ints.emplace_back(array, &array[k]);
            }
        for (auto k = r.below(4); k; --k)
            strings.push_back(std::make_shared<std::string>(genString(r)));
        for (auto k = r.below(3); k; --k)
            doubles.push_back(std::make_shared<double>(genFloat<double>(r)));
        for (auto k = r.below(5); k; --k) {
            leaves.push_back(std::make_shared<g::Leaf>());
            leaves.back()->text = genString(r);
            leaves.back()->number = some(r, ints);
        }
        for (auto k = r.below(3); k; --k) {
            lists.push_back(std::make_shared<std::vector<std::shared_ptr<g::Leaf>>>());
            for (auto q = r.below(4); q; --q)
                lists.back()->push_back(some(r, leaves));
        }
        for (auto k = n; k; --k)
            nodes.push_back(std::make_shared<g::Node>());
        for (auto k = r.below(3); k; --k)
            derived.push_back(std::make_shared<g::Derived>());
        for (auto &l : leaves)
            l->back = some(r, nodes);
        for (auto &x : nodes)
            fill(r, *x);
        for (auto &d : derived) {
            fill(r, *d);
            d->other = some(r, derived);
            d->last = some(r, nodes);
        }
    }
};
// breaks cycles of a restored graph
struct Unlinker {
    Pool pool;
    std::set<const void *> seen;
    template <class T> void collect(const T &v)
    {
        visitShared(v, [&](auto &p) {
            using E = typename std::remove_reference_t<decltype(p)>::element_type;
            if (!p || !seen.insert(p.get()).second)
                return false;
            if constexpr (std::is_same_v<E, g::Node>)
                pool.nodes.push_back(p);
            else if constexpr (std::is_same_v<E, g::Derived>)
                pool.derived.push_back(p);
            else if constexpr (std::is_same_v<E, g::Leaf>)
                pool.leaves.push_back(p);
            else if constexpr (std::is_same_v<E, std::vector<std::shared_ptr<g::Leaf>>>)
                pool.lists.push_back(p);
            return true;
        });
    }
};

// things written one after another to one serializer
struct Root {
    std::shared_ptr<g::Node> node;
    std::shared_ptr<g::Derived> derived;
    std::vector<std::shared_ptr<g::Leaf>> leaves;
    g::Derived direct;
    int kind = 0;
    template <class F> auto with(F &&f)
    {
        return kind == 0 ? f(node) : kind == 1 ? f(derived) : kind == 2 ? f(leaves) : f(direct);
    }
    void unlink()
    {
        Pool::unlink(direct);
        direct.other.reset(), direct.last.reset(), direct.strings.clear(), direct.doubles.clear();
    }
};
inline void makeRoots(Rng &r, Pool &p, std::vector<Root> &roots)
{
    const auto n = 1 + r.below(3);
    roots.resize(n);
    for (auto &x : roots) {
        x.kind = static_cast<int>(r.below(4));
        x.node = p.some(r, p.nodes);
        x.derived = p.some(r, p.derived);
        for (auto k = r.below(4); k; --k)
            x.leaves.push_back(p.some(r, p.leaves));
        if (x.kind == 3) {
            p.fill(r, x.direct);
            x.direct.other = p.some(r, p.derived);
            x.direct.last = p.some(r, p.nodes);
        }
    }
}
inline void readBack(std::vector<Root> &roots, const std::string &bytes, const char *key, bool own)
{
    std::vector<Root> got(roots.size());
    Unlinker u;
    struct Cleanup {
        std::vector<Root> &roots;
        Unlinker &u;
        ~Cleanup()
        {
            for (auto &x : roots)
                x.with([&](auto &v) { u.collect(v); return 0; });
            for (auto &x : roots)
                x.unlink();
        }
    } cleanup{ got, u };
    InBuf buf(bytes);
    std::istream is(&buf);
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto res = guardedRead<Root>([&](auto &) {
        BR::BinaryDeserializer d(&is);
        for (std::size_t k = 0; k != roots.size(); ++k) {
            got[k].kind = roots[k].kind;
            got[k].with([&](auto &v) { d.read(v); return 0; });
        }
    });
    if (!res.ok) {
        violation(std::string(key) + "-fails", res.what + " when reading graph " + hex(bytes));
        return;
    }
    Iso iso;
    for (std::size_t k = 0; k != roots.size() && iso.why.empty(); ++k)
        switch (roots[k].kind) {
        case 0: iso.eq(roots[k].node, got[k].node); break;
        case 1: iso.eq(roots[k].derived, got[k].derived); break;
        case 2: iso.eq(roots[k].leaves, got[k].leaves); break;
        default: iso.eq(roots[k].direct, got[k].direct);
        }
    if (iso.why.empty())
        iso.checkUse();
    if (!iso.why.empty())
        violation(std::string(key) + "-differs", iso.why + " after reading graph " + hex(bytes));
    if (buf.consumed() != bytes.size())
        violation(std::string(key) + "-position", "graph not consumed exactly");
    if (own) {
        count("graph_objects", iso.ab.size());
        for (auto &x : iso.refsA)
            count("graph_repeated_references", static_cast<std::uint64_t>(x.second - 1));
    }
}
// hands out the memory freed most recently first (the sanitizer's allocator avoids that, real ones do not)
struct Reuse {
    static std::map<std::size_t, std::vector<void *>> &freed()
    {
        static std::map<std::size_t, std::vector<void *>> f;
        return f;
    }
    static void clear()
    {
        for (auto &f : freed())
            for (auto *p : f.second)
                ::operator delete(p);
        freed().clear();
    }
};
template <class T> struct ReuseAlloc {
    using value_type = T;
    ReuseAlloc() = default;
    template <class U> ReuseAlloc(const ReuseAlloc<U> &) {}
    T *allocate(std::size_t n)
    {
        auto &f = Reuse::freed()[n * sizeof(T)];
        if (f.empty())
            return static_cast<T *>(::operator new(n * sizeof(T)));
        auto *const p = static_cast<T *>(f.back());
        f.pop_back();
        return p;
    }
    void deallocate(T *p, std::size_t n) { Reuse::freed()[n * sizeof(T)].push_back(p); }
    template <class U> bool operator==(const ReuseAlloc<U> &) const { return true; }
    template <class U> bool operator!=(const ReuseAlloc<U> &) const { return false; }
};
// objects living shorter than the serializer
template <class T> void temporaries(Rng &r)
{
    std::vector<std::shared_ptr<T>> alive;
    std::vector<std::size_t> aliveIds, ids;
    std::vector<T> values; // by ID
    std::ostringstream os;
    {
        BR::BinarySerializer s(&os);
        for (auto n = 2 + r.below(12); n; --n) {
            if (!alive.empty() && r.chance(40)) {
                const auto k = r.below(alive.size());
                if (r.chance(50)) {
                    s.write(alive[k]);
                    ids.push_back(aliveIds[k]);
                }
                if (r.chance(50)) {
                    alive.erase(alive.begin() + static_cast<std::ptrdiff_t>(k));
                    aliveIds.erase(aliveIds.begin() + static_cast<std::ptrdiff_t>(k));
                }
                continue;
            }
            auto o = std::allocate_shared<T>(ReuseAlloc<T>());
            genInto(r, *o);
            const auto id = values.size();
            values.push_back(*o);
            s.write(o);
            ids.push_back(id);
            if (r.chance(50)) {
                alive.push_back(o);
                aliveIds.push_back(id);
            } else
                count("temporaries");
        }
    }
    alive.clear();
    const auto bytes = os.str();
    evaluated(hashStr(bytes), hex(bytes, 100));
    std::vector<std::shared_ptr<T>> got(ids.size());
    InBuf buf(bytes);
    std::istream is(&buf);
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto res = guardedRead<Root>([&](auto &) {
        BR::BinaryDeserializer d(&is);
        for (auto &x : got)
            d.read(x);
    });
    std::string written;
    for (const auto id : ids)
        written += " #" + std::to_string(id) + "=" + dumped(values[id]);
    if (!res.ok) {
        violation("temporaries-fail", res.what + " when reading" + written + " written one after another (some being freed meanwhile)");
        return;
    }
    for (std::size_t i = 0; i != got.size(); ++i)
        for (std::size_t j = 0; j <= i; ++j)
            if (!got[i] || !same(*got[i], values[ids[i]]) || (got[i] == got[j]) != (ids[i] == ids[j])) {
                violation("temporaries-differ", "objects number " + std::to_string(j) + " and " + std::to_string(i) + " are not restored as written when writing" + written + " one after another (some being freed meanwhile)");
                return;
            }
}
// objects next to each other within memory
template <class T> void neighbours(Rng &r)
{
    const auto size = 2 + r.below(40);
    const std::shared_ptr<T[]> array(new T[size]());
    for (std::size_t i = 0; i != size; ++i)
        genInto(r, array[i]);
    std::vector<std::shared_ptr<T>> v;
    std::vector<std::size_t> index;
    for (auto n = 2 + r.below(20); n; --n) {
        index.push_back(r.chance(40) && !index.empty() ? index[r.below(index.size())] : r.below(size));
        v.emplace_back(array, &array[index.back()]);
    }
    const auto bytes = written(v);
    evaluated(hashStr(bytes), hex(bytes, 100));
    std::vector<std::shared_ptr<T>> got;
    const auto res = readInto(got, bytes);
    std::string what;
    for (const auto i : index)
        what += " #" + std::to_string(i) + "=" + dumped(array[i]);
    bool ok = res.ok && got.size() == v.size();
    for (std::size_t i = 0; ok && i != v.size(); ++i) {
        ok = got[i] && same(*got[i], *v[i]) && got[i].get() != v[i].get();
        for (std::size_t j = 0; ok && j != i; ++j) {
            ok = (got[i] == got[j]) == (index[i] == index[j]);
            count(index[i] == index[j] ? "neighbours_same" : "neighbours_distinct");
        }
    }
    if (!ok)
        violation("neighbours-differ", res.what + " pointers to elements" + what + " of one array are not restored as written: " + hex(bytes));
}
// many more shared objects than usual within one serializer, referenced again much later
template <class T> void manyObjects(Rng &r, std::size_t n, T (*make)(Rng &, std::size_t))
{
    using P = std::shared_ptr<T>;
    std::vector<std::vector<P>> parts;
    std::vector<P> all;
    while (all.size() < n) {
        auto &part = parts.emplace_back();
        for (auto k = 1 + r.below(n); k && all.size() < n; --k) {
            all.push_back(std::make_shared<T>(make(r, all.size())));
            part.push_back(all.back());
            while (r.chance(20))
                part.push_back(r.chance(10) ? P() : all[r.below(all.size())]);
        }
    }
    auto &last = parts.emplace_back(all);
    for (std::size_t k = last.size(); k > 1; --k)
        std::swap(last[k - 1], last[r.below(k)]);
    std::ostringstream os;
    {
        BR::BinarySerializer s(&os);
        for (const auto &part : parts)
            s.write(part);
    }
    const auto bytes = os.str();
    evaluated(hashStr(bytes));
    count("many_objects", all.size());
    std::vector<std::vector<P>> got(parts.size());
    InBuf buf(bytes);
    std::istream is(&buf);
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    const auto res = guardedRead<int>([&](auto &) {
        BR::BinaryDeserializer d(&is);
        for (auto &part : got)
            d.read(part);
    });
    if (!res.ok)
        return violation("many-fails", res.what + " when reading " + std::to_string(n) + " shared objects");
    if (buf.consumed() != bytes.size())
        violation("many-position", "data of " + std::to_string(n) + " shared objects not consumed exactly");
    std::unordered_map<const void *, const void *> ab, ba;
    for (std::size_t p = 0; p != parts.size(); ++p) {
        if (parts[p].size() != got[p].size())
            return violation("many-differs", "size of list of shared objects");
        for (std::size_t k = 0; k != parts[p].size(); ++k) {
            const auto &a = parts[p][k];
            const auto &b = got[p][k];
            if (!a != !b)
                return violation("many-differs", "null pointer became non-null or vice versa");
            if (!a)
                continue;
            if (!same(*a, *b))
                return violation("many-differs", "value of one of " + std::to_string(n) + " shared objects: " + dumped(*a) + " became " + dumped(*b));
            if (ab.emplace(a.get(), b.get()).first->second != b.get())
                return violation("many-differs", "one of " + std::to_string(n) + " shared objects became distinct objects");
            if (ba.emplace(b.get(), a.get()).first->second != a.get())
                return violation("many-differs", "distinct objects (of " + std::to_string(n) + ") became the same one");
        }
    }
}
inline void graphs()
{
    scenario("many", report().thorough ? 120 : 12, [](Rng &r, std::uint64_t i) {
        const auto n = i % 4 == 0 ? 65536 + r.below(10000) : i % 4 == 1 ? 4097 + r.below(5000) : 200 + r.below(3000);
        if (i % 3 == 0)
            manyObjects<std::string>(r, n, [](Rng &, std::size_t k) { return "s" + std::to_string(k); });
        else
            manyObjects<int>(r, n, [](Rng &, std::size_t k) { return static_cast<int>(k); });
    });
    scenario("neighbours", report().cases * 4, [](Rng &r, std::uint64_t i) {
        r.budget = 40;
        switch (i % 6) {
        case 0: return neighbours<std::uint8_t>(r);
        case 1: return neighbours<bool>(r);
        case 2: return neighbours<std::uint16_t>(r);
        case 3: return neighbours<int>(r);
        case 4: return neighbours<double>(r);
        default: return neighbours<std::string>(r);
        }
    });
    scenario("temporaries", report().cases * 4, [](Rng &r, std::uint64_t i) {
        r.budget = 40;
        i % 2 ? temporaries<std::string>(r) : temporaries<std::vector<int>>(r);
        Reuse::clear();
    });
    scenario("graphs", report().cases * 8, [](Rng &r, std::uint64_t) {
        Pool p;
        p.make(r);
        std::vector<Root> roots;
        makeRoots(r, p, roots);
        struct Cleanup {
            std::vector<Root> &roots;
            ~Cleanup()
            {
                for (auto &x : roots)
                    x.unlink();
            }
        } cleanup{ roots };
        // two serializers used alternately
        std::ostringstream os, os2;
        os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        std::size_t firstEnd = 0;
        {
            BR::BinarySerializer s(&os), s2(&os2);
            for (auto &x : roots) {
                x.with([&](auto &v) { s.write(v); return 0; });
                if (!firstEnd)
                    firstEnd = static_cast<std::size_t>(os.tellp());
                x.with([&](auto &v) { s2.write(v); return 0; });
            }
        }
        const auto bytes = os.str();
        report().detail = hex(bytes);
        evaluated(bytes.size() > 4 ? hashStr(bytes) : 0, hex(bytes, 100));
        if (bytes.size() != os2.str().size())
            violation("serializers-influence-each-other", "two serializers wrote " + hex(bytes) + " and " + hex(os2.str()));
        for (auto *b : { &os, &os2 }) {
            const auto actual = b->str();
            Enc m;
            m.actual = &actual;
            std::uint64_t second = 0;
            for (std::size_t k = 0; k != roots.size(); ++k) {
                roots[k].with([&](auto &v) { encode(m, v); return 0; });
                if (!k)
                    second = m.repeated;
            }
            static_cast<void>(second);
            if (m.out != actual)
                violation("bytes-differ", "expected " + hex(m.out) + " but got " + hex(actual));
            else if (!m.problem.empty())
                violation("identifiers", m.problem + " in " + hex(actual));
        }
        readBack(roots, bytes, "own-graph", true);
        Enc e;
        e.ids = &r;
        for (auto &x : roots)
            x.with([&](auto &v) { encode(e, v); return 0; });
        report().detail = hex(e.out);
        readBack(roots, e.out, "foreign-graph", false);
        // later parts referring to objects of earlier ones must not be readable on their own
        if (roots.size() > 1) {
            Enc f;
            f.ids = &r;
            roots[0].with([&](auto &v) { encode(f, v); return 0; });
            const auto start = f.out.size();
            roots[1].with([&](auto &v) { encode(f, v); return 0; });
            const auto rest = f.out.substr(start);
            __lsan::ScopedDisabler noLeakCheck; // cycles of partially restored objects cannot be broken
            Root &ref = *new Root, &got = *new Root;
            ref.kind = got.kind = roots[1].kind;
            Dec &d = *new Dec;
            d.in = rest;
            bool refOk = true;
            try {
                ref.with([&](auto &v) { decode(d, v); return 0; });
            } catch (const DecodeFailure &) {
                refOk = false;
            }
            const auto res = got.with([&](auto &v) -> ReadResult<Root> {
                InBuf buf(rest);
                std::istream is(&buf);
                is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                return guardedRead<Root>([&](auto &) { BR::BinaryDeserializer(&is).read(v); });
            });
            if (refOk != res.ok)
                violation("dangling-reference", std::string("reading part without preceding data ") + (res.ok ? "succeeds" : "fails with " + res.what) + ": " + hex(rest));
            else if (!res.ok && !res.conversion)
                violation("dangling-reference-exception", res.what + " instead of a conversion exception");
            if (!refOk)
                count("dangling_references");
        }
    });
    scenario("json-copies", report().cases * 4, [](Rng &r, std::uint64_t) {
        std::vector<std::shared_ptr<g::Dag>> nodes;
        std::vector<std::shared_ptr<std::string>> strings;
        for (auto k = 1 + r.below(3); k; --k)
            strings.push_back(std::make_shared<std::string>(genString(r)));
        auto some = [&r](auto &v) { return v.empty() || r.chance(30) ? std::remove_reference_t<decltype(v[0])>() : v[r.below(v.size())]; };
        for (auto k = 2 + r.below(6); k; --k) {
            auto n = std::make_shared<g::Dag>();
            n->value = static_cast<int>(r.below(100));
            n->a = some(nodes);
            if (r.chance(50))
                n->b = some(nodes);
            if (r.chance(30))
                n->list.push_back(some(nodes));
            n->strings["x"] = some(strings);
            n->strings["y"] = some(strings);
            if (r.chance(30))
                n->var = some(nodes);
            nodes.push_back(n);
        }
        const auto &root = *nodes.back();
        const auto text = JR::toJson(root);
        const std::string t(text.GetString(), text.GetSize());
        report().detail = t;
        evaluated(hashStr(t), t);
        const auto got = JR::fromJson<g::Dag>(t);
        if (!same(root, got))
            violation("json-copies-differ", dumped(root) + " became " + dumped(got));
        std::set<const void *> seen;
        visitShared(got, [&](auto &p) {
            if (!p)
                return false;
            if (!seen.insert(p.get()).second)
                violation("json-shares", "object restored from JSON is shared: " + t);
            if (p.use_count() != 1)
                violation("json-shares", "use count of object restored from JSON is " + std::to_string(p.use_count()));
            count("json_copies");
            return true;
        });
    });
}
template <class T> void type(const char *name)
{
    if (std::string(name) == "graphs")
        return;
    scenario(name, report().cases, [](Rng &r, std::uint64_t) {
        sharingEnabled() = true;
        clearSharedPools();
        r.budget = 120;
        T v = gen<T>(r);
        clearSharedPools();
        const auto bytes = written(v);
        report().detail = dumped(v);
        const auto structure = sharing(v);
        Enc m;
        m.actual = &bytes;
        encode(m, v);
        evaluated(m.firstOcc ? hashStr(bytes) : 0, structure);
        if (m.out != bytes || !m.problem.empty())
            violation("bytes-differ", m.problem + " expected " + hex(m.out) + " but got " + hex(bytes));
        T w = fresh<T>();
        const auto res = readInto(w, bytes);
        if (!res.ok || !same(v, w) || structure != sharing(w))
            violation("sharing-differs", res.what + " " + diffNote() + " sharing structure " + structure + " became " + sharing(w) + " for " + dumped(v));
        std::map<const void *, std::pair<long, long>> refs;
        visitShared(w, [&](auto &p) {
            if (!p)
                return false;
            auto &x = refs[p.get()];
            ++x.first;
            x.second = p.use_count();
            return x.first == 1;
        });
        for (auto &x : refs)
            if (x.second.first != x.second.second)
                violation("use-count", "restored object referenced " + std::to_string(x.second.first) + " times has use count " + std::to_string(x.second.second));
        count("pointers_first", m.firstOcc);
        count("pointers_repeated", m.repeated);
    });
}
} // namespace vhcheck
