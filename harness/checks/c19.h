// C19: concurrent use of independent objects
#include "chrono.h"
#include "../vh/binlib.h"
#include "../vh/jsoncheck.h"
#include <atomic>
#include <reflective_rapidjson/json/errorformatting.h>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
namespace vhcheck {
using namespace vh;
// randomly delays the current thread
inline void delay(Rng &r)
{
    switch (r.below(24)) {
    case 0:
    case 1:
        sched_yield();
        break;
    case 2:
        usleep(static_cast<unsigned>(r.below(60)));
        break;
    default:;
    }
}
struct SlowIn : std::streambuf {
    std::string_view s;
    Rng &r;
    std::size_t at = 0;
    SlowIn(std::string_view s, Rng &r)
        : s(s)
        , r(r)
    {
    }
    int_type underflow() override
    {
        if (gptr() < egptr())
            return traits_type::to_int_type(*gptr());
        if (at >= s.size())
            return traits_type::eof();
        delay(r);
        const auto n = std::min<std::size_t>(s.size() - at, 1 + r.below(16));
        auto *p = const_cast<char *>(s.data()) + at;
        setg(p, p, p + n);
        at += n;
        return traits_type::to_int_type(*gptr());
    }
};
struct SlowOut : std::streambuf {
    std::string data;
    Rng &r;
    explicit SlowOut(Rng &r)
        : r(r)
    {
    }
    int_type overflow(int_type c) override
    {
        delay(r);
        data += traits_type::to_char_type(c);
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        delay(r);
        data.append(s, static_cast<std::size_t>(n));
        return n;
    }
};
enum OpKind { PushText, PushDoc, PullText, PullThrow, PullValue, PullBroken, WriteBin, ReadBin, ReadCut, Format, OpKinds };
inline const char *kindName(int k)
{
    static const char *const n[] = { "toJson", "toJsonDocument", "fromJson", "fromJson throwing", "pull from shared value", "fromJson invalid text", "write", "read", "read truncated", "format" };
    return n[k];
}
struct Op {
    OpKind kind;
    std::string name;
    std::function<std::string(Rng &)> run;
    std::string alone; // result when executed alone
    bool hasAlone = false;
};
inline std::vector<Op> &ops()
{
    static auto *o = new std::vector<Op>;
    return *o;
}
template <class F> std::string caught(F &&f)
{
    try {
        return f();
    } catch (const RR::JsonDeserializationError &e) {
        return "thrown " + conv(e).text();
    } catch (const RJ::ParseResult &p) {
        return "parse error " + std::to_string(static_cast<int>(p.Code())) + " at " + std::to_string(p.Offset());
    }
}
template <class T> void type(const char *name)
{
    Rng r(report().seed * 77 + hashStr(name));
    const auto add = [&](OpKind k, std::function<std::string(Rng &)> f) { ops().push_back({ k, std::string(kindName(k)) + " " + name, std::move(f), {}, false }); };
    for (int i = 0; i != 3; ++i) {
        r.budget = 30 + i * 40;
        sharingEnabled() = true;
        const std::shared_ptr<const T> v = std::make_shared<const T>(gen<T>(r));
        clearSharedPools();
        if constexpr (std::is_base_of_v<RR::JsonSerializable<T>, T>) {
            add(PushText, [v](Rng &) { return toJsonText(*v); });
            add(PushDoc, [v](Rng &) { return printed(fromRapid(JR::toJsonDocument(*v))); });
            const auto good = std::make_shared<const std::string>(printed(refPush(*v)));
            J d = refPush(*v);
            for (auto n = 1 + r.below(4); n; --n)
                mutate(d, r);
            const auto bad = std::make_shared<const std::string>(printed(d));
            for (auto &t : { good, bad }) {
                add(PullText, [t](Rng &) {
                    return caught([&] {
                        RR::JsonDeserializationErrors errors;
                        const T w = JR::fromJson<T>(t->data(), t->size(), &errors);
                        return dumped(w) + vh::text(conv(errors));
                    });
                });
                if (t != good)
                    add(PullThrow, [t](Rng &) {
                        RR::JsonDeserializationErrors errors;
                        errors.throwOn = RR::JsonDeserializationErrors::ThrowOn::All;
                        auto s = caught([&] { return dumped(JR::fromJson<T>(t->data(), t->size(), &errors)); });
                        return s + vh::text(conv(errors));
                    });
                const auto doc = std::make_shared<RJ::Document>();
                doc->Parse(t->data(), t->size());
                if (!doc->HasParseError())
                    add(PullValue, [doc](Rng &) {
                        return caught([&] {
                            T w = fresh<T>();
                            RR::JsonDeserializationErrors errors;
                            JR::pull(w, static_cast<const RJ::Value &>(*doc), &errors);
                            return dumped(w) + vh::text(conv(errors));
                        });
                    });
            }
            const auto broken = std::make_shared<const std::string>(good->substr(0, r.below(good->size())));
            add(PullBroken, [broken](Rng &) { return caught([&] { return dumped(JR::fromJson<T>(*broken)); }); });
            auto errors = std::make_shared<RR::JsonDeserializationErrors>();
            try {
                JR::fromJson<T>(bad->data(), bad->size(), errors.get());
            } catch (const RR::JsonDeserializationError &) {
            }
            add(Format, [errors](Rng &) {
                std::string s;
                for (auto &e : *errors)
                    s += RR::formatJsonDeserializationError(e) + "\n";
                return s;
            });
        }
        if constexpr (std::is_base_of_v<RR::BinarySerializable<T, Desc<T>::version>, T>) {
            add(WriteBin, [v](Rng &r) {
                SlowOut buf(r);
                std::ostream os(&buf);
                os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                BR::BinarySerializer(&os).write(*v);
                return hex(buf.data, 1 << 20);
            });
            Enc e;
            encode(e, *v);
            const auto bytes = std::make_shared<const std::string>(e.out);
            const auto read = [](std::string_view s, Rng &r) {
                SlowIn buf(s, r);
                std::istream is(&buf);
                is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                T w = fresh<T>();
                const auto res = guardedRead<T>([&](auto &) { BR::BinaryDeserializer(&is).read(w); });
                return std::string(res.ok ? "ok " : res.stream ? "stream " : res.conversion ? "conversion " : res.what) + dumped(w) + (res.ok ? sharing(w) : std::string());
            };
            add(ReadBin, [bytes, read](Rng &r) { return read(*bytes, r); });
            if (!bytes->empty()) {
                const auto n = r.below(bytes->size());
                add(ReadCut, [bytes, n, read](Rng &r) { return read(std::string_view(*bytes).substr(0, n), r); });
            }
        }
    }
}
// executes an operation in a process of its own
inline bool runAlone(Op &op)
{
    int fds[2];
    if (pipe(fds) != 0)
        return false;
    const auto pid = fork();
    if (pid < 0)
        return false;
    if (!pid) {
        close(fds[0]);
        Rng r(1);
        const auto s = op.run(r);
        for (std::size_t i = 0; i < s.size();) {
            const auto n = ::write(fds[1], s.data() + i, s.size() - i);
            if (n <= 0)
                _exit(3);
            i += static_cast<std::size_t>(n);
        }
        _exit(0);
    }
    close(fds[1]);
    char buf[4096];
    for (ssize_t n; (n = ::read(fds[0], buf, sizeof(buf))) > 0;)
        op.alone.append(buf, static_cast<std::size_t>(n));
    close(fds[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (status != 0) {
        violation("alone-fails", op.name + " executed in a process of its own fails with status " + std::to_string(status));
        return false;
    }
    return op.hasAlone = true;
}
struct ThreadResult {
    std::uint64_t executed = 0;
    std::array<std::uint64_t, OpKinds> kinds{};
    std::set<std::pair<int, int>> overlaps; // kinds of operations observed at the same time
    std::vector<std::pair<std::size_t, std::string>> different;
};
inline void finish()
{
    auto &all = ops();
    Rng r(report().seed * 31 + all.size());
    // what every operation does in a process of its own, before anything else has been executed here
    for (auto &op : all) {
        runAlone(op);
        count("executed alone");
    }
    if (!report().violations.empty())
        return;
    constexpr std::size_t threads = 8;
    static std::array<std::atomic<int>, OpKinds> active{};
    for (std::uint64_t round = 1; round <= report().cases; ++round) {
        report().what = "threads";
        report().caseId = round;
        // rounds: all threads execute the same operation at once; the same sequence; random operations; operations on the same type
        const auto style = round % 4;
        const auto n = style == 1 ? 12 : 60;
        std::vector<std::vector<std::size_t>> plans(threads);
        const auto base = r.below(all.size());
        for (std::size_t t = 0; t != threads; ++t) {
            for (int k = 0; k != n; ++k) {
                switch (style) {
                case 0:
                case 3:
                    plans[t].push_back(r.below(all.size()));
                    break;
                case 1:
                    plans[t].push_back(base);
                    break;
                default:
                    plans[t].push_back((base + r.below(24)) % all.size());
                }
            }
        }
        std::vector<ThreadResult> results(threads);
        std::vector<std::uint64_t> seeds;
        for (std::size_t t = 0; t != threads; ++t)
            seeds.push_back(r.next());
        std::atomic<std::size_t> ready{ 0 };
        const auto work = [&](std::size_t t) {
            Rng mine(seeds[t]);
            auto &res = results[t];
            // start at the same time
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) != threads) {
            }
            for (const auto i : plans[t]) {
                const auto &op = all[i];
                delay(mine);
                active[op.kind].fetch_add(1, std::memory_order_relaxed); // relaxed: must not order anything
                for (int k = 0; k != OpKinds; ++k)
                    if (active[static_cast<std::size_t>(k)].load(std::memory_order_relaxed) > (k == op.kind))
                        res.overlaps.emplace(op.kind, k);
                auto s = op.run(mine);
                active[op.kind].fetch_sub(1, std::memory_order_relaxed);
                ++res.executed;
                ++res.kinds[op.kind];
                if (s != op.alone && res.different.size() < 4)
                    res.different.emplace_back(i, std::move(s));
            }
        };
        std::vector<std::thread> pool;
        for (std::size_t t = 0; t != threads; ++t)
            pool.emplace_back(work, t);
        for (auto &t : pool)
            t.join();
        std::uint64_t id = 0;
        static std::set<std::pair<int, int>> overlaps;
        for (auto &res : results) {
            count("operations", res.executed);
            for (int k = 0; k != OpKinds; ++k)
                if (const auto c = res.kinds[static_cast<std::size_t>(k)])
                    count(std::string("op ") + kindName(k), c);
            for (auto &o : res.overlaps) {
                id = id * 31 + static_cast<std::uint64_t>(o.first * 16 + o.second);
                overlaps.insert(o);
            }
            for (auto &d : res.different)
                violation("concurrent-result-differs", all[d.first].name + " yields " + d.second.substr(0, 1500) + " instead of " + all[d.first].alone.substr(0, 1500) + " (as when executed alone)");
        }
        report().counters["distinct pairs of operation kinds observed overlapping"] = overlaps.size();
        for (auto &p : plans)
            for (auto i : p)
                id = id * 1099511628211ull + i;
        evaluated(id | 1);
    }
    // histories: operations one after another in random orders
    report().what = "histories";
    for (std::uint64_t k = 0; k != report().cases / 2; ++k) {
        std::uint64_t id = 1;
        for (int n = 0; n != 60; ++n) {
            const auto i = r.below(all.size());
            id = id * 1099511628211ull + i;
            const auto s = all[i].run(r);
            count("operations in histories");
            if (s != all[i].alone)
                violation("history-dependent", all[i].name + " yields " + s.substr(0, 1500) + " instead of " + all[i].alone.substr(0, 1500) + " (as when executed alone)");
        }
        evaluated(id | 1);
    }
}
template <class T> void top(const char *) {}
} // namespace vhcheck
