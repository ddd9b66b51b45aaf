// Independent model of the times of the C++ utilities (hooks for generating, comparing and mapping them).
#pragma once
#include "../vh/refjson.h"
#include "../vh/refbin.h"
#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
namespace vh {
using DateTime = CppUtilities::DateTime;
using TimeSpan = CppUtilities::TimeSpan;
constexpr std::int64_t ticksPerSecond = 10000000, ticksPerDay = 86400 * ticksPerSecond;
constexpr std::int64_t maxDate = 3155378975999999999; // 9999-12-31T23:59:59.9999999

struct TimeFlags {
    bool exact = false; // compare exactly (binary)
    bool anyRange = false; // whether values without string representation are generated (binary)
    Rng *notations = nullptr; // make push() of the model use arbitrary notations and malformed strings
    bool undecided = false;
    std::map<std::string, std::int64_t> dates, spans; // meaning of the notations which have been used
    std::set<std::string> badDates, badSpans;
    std::map<std::string, std::uint64_t> stats;
};
inline TimeFlags &timeFlags()
{
    static TimeFlags f;
    return f;
}

// --- calendar ---
inline std::int64_t daysBefore(std::int64_t y, int m, int d) // since 0001-01-01
{
    static const int before[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
    const auto leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    const auto p = y - 1;
    return p * 365 + p / 4 - p / 100 + p / 400 + before[m - 1] + (m > 2 && leap ? 1 : 0) + d - 1;
}
inline int daysInMonth(std::int64_t y, int m)
{
    return static_cast<int>((m == 12 ? daysBefore(y + 1, 1, 1) : daysBefore(y, m + 1, 1)) - daysBefore(y, m, 1));
}
struct Broken {
    std::int64_t y = 1;
    int mo = 1, d = 1, h = 0, mi = 0, s = 0, frac = 0;
};
inline Broken breakDown(std::int64_t t)
{
    Broken b;
    const auto days = t / ticksPerDay;
    b.y = days / 366 + 1;
    while (daysBefore(b.y + 1, 1, 1) <= days)
        ++b.y;
    while (b.mo < 12 && daysBefore(b.y, b.mo + 1, 1) <= days)
        ++b.mo;
    b.d = static_cast<int>(days - daysBefore(b.y, b.mo, 1)) + 1;
    auto rest = t % ticksPerDay;
    b.frac = static_cast<int>(rest % ticksPerSecond);
    rest /= ticksPerSecond;
    b.s = static_cast<int>(rest % 60), b.mi = static_cast<int>(rest / 60 % 60), b.h = static_cast<int>(rest / 3600);
    return b;
}
inline std::string pad(std::int64_t v, int n)
{
    auto s = std::to_string(v);
    while (static_cast<int>(s.size()) < n)
        s.insert(0, "0");
    return s;
}
inline std::string fraction(int frac, Rng *r)
{
    if (!frac && !(r && r->chance(20)))
        return std::string();
    auto s = pad(frac, 7);
    while (s.size() > 1 && s.back() == '0' && (!r || r->chance(80)))
        s.pop_back();
    return "." + s;
}
inline std::string dateText(const Broken &b, Rng *r)
{
    return pad(b.y, 4) + "-" + pad(b.mo, 2) + "-" + pad(b.d, 2) + "T" + pad(b.h, 2) + ":" + pad(b.mi, 2) + ":" + pad(b.s, 2) + fraction(b.frac, r);
}
inline std::string spanText(std::int64_t t, Rng *r)
{
    const auto n = t < 0 ? -t : t;
    return (t < 0 ? "-" : "") + pad(n / ticksPerSecond / 3600, 2) + ":" + pad(n / ticksPerSecond / 60 % 60, 2) + ":" + pad(n / ticksPerSecond % 60, 2) + fraction(static_cast<int>(n % ticksPerSecond), r);
}
// strict parsers of what is written
inline bool number(std::string_view &s, std::size_t minDigits, std::size_t maxDigits, std::int64_t &v)
{
    std::size_t n = 0;
    v = 0;
    while (n < s.size() && n < maxDigits && s[n] >= '0' && s[n] <= '9')
        v = v * 10 + (s[n++] - '0');
    s.remove_prefix(n);
    return n >= minDigits;
}
inline bool lit(std::string_view &s, char c)
{
    if (s.empty() || s[0] != c)
        return false;
    s.remove_prefix(1);
    return true;
}
inline bool parseFraction(std::string_view &s, std::int64_t &frac)
{
    frac = 0;
    if (!lit(s, '.'))
        return true;
    const auto before = s.size();
    if (!number(s, 1, 7, frac))
        return false;
    for (auto n = before - s.size(); n < 7; ++n)
        frac *= 10;
    return true;
}
inline bool parseDate(std::string_view s, std::int64_t &t)
{
    std::int64_t y, mo, d, h, mi, sec, f;
    if (!number(s, 4, 4, y) || !lit(s, '-') || !number(s, 2, 2, mo) || !lit(s, '-') || !number(s, 2, 2, d) || !lit(s, 'T') || !number(s, 2, 2, h) || !lit(s, ':') || !number(s, 2, 2, mi) || !lit(s, ':')
        || !number(s, 2, 2, sec) || !parseFraction(s, f) || !s.empty())
        return false;
    if (y < 1 || mo < 1 || mo > 12 || d < 1 || d > daysInMonth(y, static_cast<int>(mo)) || h > 23 || mi > 59 || sec > 59)
        return false;
    t = (daysBefore(y, static_cast<int>(mo), static_cast<int>(d)) * 86400 + h * 3600 + mi * 60 + sec) * ticksPerSecond + f;
    return true;
}
inline bool parseSpan(std::string_view s, std::int64_t &t)
{
    const auto negative = lit(s, '-');
    std::int64_t h, m, sec, f;
    if (!number(s, 2, 6, h) || !lit(s, ':') || !number(s, 2, 2, m) || !lit(s, ':') || !number(s, 2, 2, sec) || !parseFraction(s, f) || !s.empty() || m > 59 || sec > 59)
        return false;
    t = (h * 3600 + m * 60 + sec) * ticksPerSecond + f;
    if (negative)
        t = -t;
    return true;
}
// --- values ---
inline std::int64_t genTicks(Rng &r, std::int64_t min, std::int64_t max)
{
    std::int64_t t;
    switch (r.below(7)) {
    case 0:
        return min;
    case 1:
        return max - static_cast<std::int64_t>(r.below(2));
    case 2:
        return min <= 0 ? 0 : min;
    default:
        t = min + static_cast<std::int64_t>(r.next() % (static_cast<std::uint64_t>(max) - static_cast<std::uint64_t>(min)));
    }
    static const std::int64_t units[] = { 1, 10, 10000, 5000000, ticksPerSecond, 60 * ticksPerSecond, 3600 * ticksPerSecond, ticksPerDay };
    const auto u = units[r.below(8)];
    return t / u * u;
}
constexpr std::int64_t maxSpan = 100000ll * 3600 * ticksPerSecond - 1;
template <class T> struct TimeHooks {
    static constexpr bool date = std::is_same_v<T, DateTime>;
    static std::int64_t ticks(const T &v) { return static_cast<std::int64_t>(v.totalTicks()); }
    static T make(std::int64_t t)
    {
        if constexpr (date)
            return T(static_cast<std::uint64_t>(t));
        else
            return T(t);
    }
    static void into(Rng &r, T &v)
    {
        if (timeFlags().anyRange)
            v = make(genInt<std::int64_t>(r));
        else if (date)
            v = make(genTicks(r, 0, maxDate));
        else if (r.chance(50))
            v = make(genTicks(r, -maxSpan, maxSpan));
        else
            v = make(genTicks(r, -2 * ticksPerDay, 2 * ticksPerDay));
    }
    static bool eq(const T &a, const T &b)
    {
        const auto x = ticks(a), y = ticks(b);
        if (x == y)
            return true;
        const auto diff = x > y ? static_cast<std::uint64_t>(x) - static_cast<std::uint64_t>(y) : static_cast<std::uint64_t>(y) - static_cast<std::uint64_t>(x);
        if (!timeFlags().exact && diff <= 10) // 1 µs (parsing involves floating point numbers)
            return true;
        diffNote() = std::to_string(x) + " != " + std::to_string(y) + " ticks";
        return false;
    }
    static void dump(std::string &o, const T &v) { o += (date ? "date" : "span") + std::to_string(ticks(v)); }
    // the model's notation of a value
    static J push(const T &v)
    {
        auto &f = timeFlags();
        const auto t = ticks(v);
        if (!f.notations)
            return J::str(date ? dateText(breakDown(t), nullptr) : spanText(t, nullptr));
        auto &r = *f.notations;
        const auto good = [&](std::string s, std::int64_t meaning, const char *kind) {
            (date ? f.dates : f.spans)[s] = meaning;
            ++f.stats[std::string(date ? "date: " : "span: ") + kind];
            return J::str(std::move(s));
        };
        const auto bad = [&](std::string s, const char *kind) {
            (date ? f.badDates : f.badSpans).insert(s);
            ++f.stats[std::string(date ? "date: " : "span: ") + kind];
            return J::str(std::move(s));
        };
        const auto k = r.below(14);
        if constexpr (date) {
            auto b = breakDown(t);
            const auto time = [&](const Broken &x) { return (daysBefore(x.y, x.mo, x.d) * 86400 + x.h * 3600 + x.mi * 60 + x.s) * ticksPerSecond + x.frac; };
            const auto full = dateText(b, &r);
            switch (k) {
            case 0:
                return good(full + "Z", t, "UTC designator");
            case 1:
            case 2: { // time zone
                const auto h = static_cast<int>(r.below(15)), m = static_cast<int>(r.below(4)) * 15;
                const auto negative = r.chance(50);
                auto delta = (h * 3600 + m * 60) * ticksPerSecond;
                if (negative)
                    delta = -delta;
                if (t - delta < 0 || t - delta > maxDate)
                    break;
                return good(full + (negative ? "-" : "+") + pad(h, 2) + ":" + pad(m, 2), t - delta, "time zone");
            }
            case 3:
            case 4: { // omitted components
                auto s = full.substr(0, full.find('.'));
                b.frac = 0;
                switch (r.below(6)) {
                case 0: break;
                case 1: s.resize(16), b.s = 0; break;
                case 2: s.resize(13), b.s = b.mi = 0; break;
                case 3: s.resize(10), b.s = b.mi = b.h = 0; break;
                case 4: s.resize(7), b.s = b.mi = b.h = 0, b.d = 1; break;
                default: s.resize(4), b.s = b.mi = b.h = 0, b.d = b.mo = 1;
                }
                return good(s, time(b), "omitted components");
            }
            case 5: // out of range
                switch (r.below(7)) {
                case 0: b.mo = 13; break;
                case 1: b.d = 32; break;
                case 2: b.d = daysInMonth(b.y, b.mo) + 1; break;
                case 3: b.h = 24 + static_cast<int>(r.below(70)); break;
                case 4: b.mi = 60 + static_cast<int>(r.below(30)); break;
                case 5: b.s = 60 + static_cast<int>(r.below(30)); break;
                default: r.chance(50) ? b.mo = 0 : b.d = 0;
                }
                return bad(dateText(b, &r), "out of range");
            case 6: {
                auto s = full;
                s.insert(r.below(s.size() + 1), 1, "?/ax#\"\\ "[r.below(8)]);
                return bad(s, "unexpected character");
            }
            case 7: {
                auto s = full;
                s.insert(r.below(s.size() + 1), 1, '\0');
                return bad(s, "null byte");
            }
            case 8:
                return bad(r.pick(std::vector<std::string>{ "", "today", "null", "0000-01-01T00:00:00", "foo", "2017-04-02T11:30:21Zfoo", "1\xc3\xa4" }), "malformed");
            }
            return good(full, t, "full");
        } else {
            const auto full = spanText(t, &r);
            const auto n = t < 0 ? -t : t;
            const std::string sign = t < 0 ? "-" : "";
            switch (k) {
            case 0:
                if (n < 60 * ticksPerSecond)
                    return good(sign + std::to_string(n / ticksPerSecond) + fraction(static_cast<int>(n % ticksPerSecond), &r), t, "seconds");
                break;
            case 1:
                if (n < 3600 * ticksPerSecond)
                    return good(sign + std::to_string(n / ticksPerSecond / 60) + ":" + pad(n / ticksPerSecond % 60, 2) + fraction(static_cast<int>(n % ticksPerSecond), &r), t, "minutes");
                break;
            case 2:
            case 3:
                return good(sign + std::to_string(n / ticksPerDay) + ":" + spanText(n % ticksPerDay, &r), t, "days");
            case 4:
                return good(sign + std::to_string(n / ticksPerSecond) + fraction(static_cast<int>(n % ticksPerSecond), &r), t, "seconds");
            case 5:
                return bad(sign + "1:2:" + full.substr(sign.size()), "too many components");
            case 6: {
                auto s = full;
                s.insert(r.below(s.size() + 1), 1, "?/z#\"\\,"[r.below(7)]);
                return bad(s, "unexpected character");
            }
            case 7: {
                auto s = full;
                s.insert(r.below(s.size() + 1), 1, '\0');
                return bad(s, "null byte");
            }
            case 8:
                return bad(r.pick(std::vector<std::string>{ "foo", "-", "--1", "null", "00:00:x", "\xc3\xa4" }), "malformed");
            }
            return good(full, t, "full");
        }
    }
    static void pull(T &v, const J &j, PullCtx &c)
    {
        auto &f = timeFlags();
        if (j.k != J::Str)
            return c.report(EK::TypeMismatch, JT::String, jt(j));
        const auto &known = date ? f.dates : f.spans;
        const auto i = known.find(j.s);
        std::int64_t t = 0;
        if (i != known.end())
            t = i->second;
        else if ((date ? f.badDates : f.badSpans).count(j.s))
            return c.report(EK::ConversionError, JT::String, JT::String);
        else if (!(date ? parseDate(j.s, t) : parseSpan(j.s, t)))
            return void(f.undecided = true);
        v = make(t);
    }
};
template <> struct CustomGen<DateTime> : TimeHooks<DateTime> {};
template <> struct CustomGen<TimeSpan> : TimeHooks<TimeSpan> {};
template <class T> struct CustomBin<T, std::enable_if_t<std::is_same_v<T, DateTime> || std::is_same_v<T, TimeSpan>>> {
    static void encode(Enc &e, const T &v, std::uint64_t) { e.u(static_cast<std::uint64_t>(v.totalTicks()), 8); }
    static void decode(Dec &d, T &v, std::uint64_t) { v = TimeHooks<T>::make(static_cast<std::int64_t>(d.u(8))); }
};
} // namespace vh
