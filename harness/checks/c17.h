// C17: restoring into existing objects
#include "../vh/lib.h"
#include "../vh/binlib.h"
namespace vhcheck {
using namespace vh;
template <class T> constexpr bool isJson() { return std::is_base_of_v<RR::JsonSerializable<T>, T>; }
template <class T> constexpr bool isBin() { return std::is_base_of_v<RR::BinarySerializable<T>, T>; }

// objects referenced from elsewhere
struct Watched {
    std::vector<std::pair<std::function<std::string()>, std::string>> objects;
    template <class T> void watch(const T &v)
    {
        std::set<const void *> seen;
        visitShared(v, [&](auto &p) {
            if (!p || !seen.insert(p.get()).second)
                return false;
            auto copy = p;
            std::function<std::string()> f = [copy] { return dumped(*copy); };
            auto now = f();
            objects.emplace_back(std::move(f), std::move(now));
            return true;
        });
        count("watched_objects", seen.size());
    }
    void check(const char *what)
    {
        for (auto &o : objects) {
            const auto now = o.first();
            if (now != o.second)
                violation(std::string("shared-object-modified-") + what, "object referenced from elsewhere changed from " + o.second + " to " + now + " when restoring another one");
        }
    }
};
inline void leaveOut(Rng &r, J &j, bool top = true)
{
    for (auto &e : j.a)
        leaveOut(r, e, false);
    for (std::size_t k = j.o.size(); k--;)
        if (r.chance(top ? 10 : 25) && j.o[k].first != "index" && j.o[k].first != "data")
            j.o.erase(j.o.begin() + static_cast<std::ptrdiff_t>(k));
        else
            leaveOut(r, j.o[k].second, false);
}
template <class T> void restore(Rng &r, std::uint64_t i)
{
    // content, restored repeatedly; sizes vary so containers shrink and grow
    T w = fresh<T>(), model = fresh<T>();
    const auto seed = r.next();
    for (auto *x : { &w, &model }) {
        Rng q(seed);
        q.budget = 40 + static_cast<int>(q.below(4)) * 40;
        sharingEnabled() = i % 2;
        genInto(q, *x);
        clearSharedPools();
    }
    const auto rounds = 1 + r.below(3);
    for (std::uint64_t k = 0; k != rounds; ++k) {
        r.budget = r.chance(20) ? 4 : 30 + static_cast<int>(r.below(4)) * 40;
        const T v = gen<T>(r);
        clearSharedPools();
        const auto before = dumped(w);
        Watched watched;
        if (r.chance(60))
            watched.watch(w);
        const bool json = isJson<T>() && (!isBin<T>() || r.chance(50));
        std::string data, problem;
        if (json) {
            if constexpr (isJson<T>()) {
                auto doc = refPush(v);
                if (r.chance(40)) {
                    leaveOut(r, doc);
                    count("members_left_out");
                }
                data = printed(doc, &r);
                PullCtx ctx;
                refPull(model, doc, ctx);
                report().detail = data + " into " + before;
                RJ::Document parsed = JR::parseJsonDocFromString(data.data(), data.size());
                RR::JsonDeserializationErrors errors;
                JR::pull(w, static_cast<const RJ::Value &>(parsed), r.chance(50) ? &errors : nullptr);
                if (!errors.empty() && ctx.errors.empty())
                    problem = "errors reported: " + vh::text(conv(errors));
            }
            count("json_restores");
        } else {
            if constexpr (isBin<T>()) {
                Enc e;
                e.ids = &r;
                const auto version = r.below(5);
                encode(e, v, version);
                data = e.out;
                report().detail = hex(data) + " into " + before;
                Dec d;
                d.in = data;
                try {
                    decode(d, model, version);
                } catch (const DecodeFailure &f) {
                    violation("harness", "reference decoder fails: " + f.why);
                    return;
                }
                const auto all = same(v, model);
                if (!all)
                    count("partial_restores");
                const auto res = readInto(w, data, version);
                if (!res.ok)
                    problem = "reading fails: " + res.what;
                else if (all && sharing(v) != sharing(w))
                    problem = "sharing differs";
                data = hex(data, 3000);
            }
            count("binary_restores");
        }
        evaluated(hashStr(data) ^ hashStr(before), data.substr(0, 150) + " into " + before.substr(0, 150));
        if (!problem.empty() || !same(model, w)) {
            violation(json ? "json-leftovers" : "binary-leftovers", problem + "[" + diffNote() + "] restoring " + data + " into " + before + " gives " + dumped(w) + " instead of " + dumped(model));
            return;
        }
        watched.check(json ? "json" : "binary");
    }
}
template <class T> void type(const char *name)
{
    scenario(name, report().cases, [](Rng &r, std::uint64_t i) { restore<T>(r, i); });
}
template <class T> void top(const char *) {}
} // namespace vhcheck
