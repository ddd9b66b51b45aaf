// Reporting: violations, statistics, replay information; bounded allocation; crash diagnosis.
#pragma once
#include "core.h"
#include <locale>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <new>
#include <sys/resource.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vh {

struct Report {
    std::uint64_t seed = 1;
    std::uint64_t cases = 100; // number of cases per type/scenario
    std::uint64_t only = 0; // replay: only this case
    std::string onlyWhat; // replay: only this type/scenario
    std::string out = "report.json";
    bool thorough = false;

    std::uint64_t evals = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::uint64_t> counters;
    struct Violation {
        std::string key, message, what;
        std::uint64_t caseId;
    };
    std::vector<Violation> violations;
    std::uint64_t suppressed = 0;
    std::string what; // current type/scenario
    std::uint64_t caseId = 0;
    std::string detail; // description of the current case (input)
};
inline Report &report()
{
    static Report *r = new Report; // never destroyed
    return *r;
}
inline void jsonStr(std::ostream &os, const std::string &s)
{
    static const char *hex = "0123456789abcdef";
    os << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            os << '\\' << c;
        else if (c < 0x20 || c >= 0x7f)
            os << "\\u00" << hex[c >> 4] << hex[c & 15];
        else
            os << c;
    }
    os << '"';
}
inline void writeReport(bool crashed)
{
    auto &r = report();
    std::ofstream os(r.out, std::ios::trunc);
    os.imbue(std::locale::classic());
    os << "{\"evals\":" << r.evals << ",\"distinct\":" << r.distinct.size() << ",\"crashed\":" << (crashed ? "true" : "false") << ",\"suppressed\":" << r.suppressed
       << ",\"what\":";
    jsonStr(os, r.what);
    os << ",\"case\":" << r.caseId << ",\"detail\":";
    jsonStr(os, r.detail.substr(0, 4000));
    os << ",\"samples\":[";
    for (std::size_t i = 0; i != r.samples.size(); ++i) {
        os << (i ? "," : "");
        jsonStr(os, r.samples[i].substr(0, 600));
    }
    os << "],\"counters\":{";
    bool first = true;
    for (auto &c : r.counters) {
        os << (first ? "" : ",");
        first = false;
        jsonStr(os, c.first);
        os << ":" << c.second;
    }
    os << "},\"violations\":[";
    for (std::size_t i = 0; i != r.violations.size(); ++i) {
        auto &v = r.violations[i];
        os << (i ? "," : "") << "{\"key\":";
        jsonStr(os, v.key);
        os << ",\"message\":";
        jsonStr(os, v.message.substr(0, 6000));
        os << ",\"what\":";
        jsonStr(os, v.what);
        os << ",\"case\":" << v.caseId << "}";
    }
    os << "]}\n";
}
inline void violation(const std::string &key, const std::string &message)
{
    auto &r = report();
    std::size_t n = 0;
    for (auto &v : r.violations)
        n += v.key == key;
    if (n >= 3 || r.violations.size() >= 40) {
        ++r.suppressed;
        return;
    }
    r.violations.push_back({ key, message, r.what, r.caseId });
}
inline void count(const std::string &c, std::uint64_t n = 1) { report().counters[c] += n; }
// registers an evaluated case; identity: hash of what makes it distinct; 0: trivial
inline void evaluated(std::uint64_t identity, const std::string &sample = std::string())
{
    auto &r = report();
    ++r.evals;
    if (identity && r.distinct.insert(identity ^ hashStr(r.what)).second && !sample.empty() && r.samples.size() < 6 && (r.distinct.size() & 15) == 3)
        r.samples.push_back(r.what + ": " + sample);
}

// runs `cases` cases for a named scenario; catches stray exceptions
// runs scenarios with enormous values
inline bool &enormousMode()
{
    static bool b = false;
    return b;
}
template <class F> void enormously(F &&f)
{
    enormousMode() = true;
    f();
    enormousMode() = false;
}
template <class F> void scenario(const std::string &name, std::uint64_t cases, F &&f)
{
    auto &r = report();
    if (enormousMode())
        cases = r.thorough ? 30 : 3;
    if (!r.onlyWhat.empty() && r.onlyWhat != name)
        return;
    r.what = name;
    for (std::uint64_t i = 1; i <= cases; ++i) {
        if (r.only && r.only != i)
            continue;
        r.caseId = i;
        r.detail.clear();
        Rng rng(r.seed * 0x9E3779B97F4A7C15ull ^ hashStr(name) ^ (i * 0xD1B54A32D192ED03ull));
        rng.enormous = enormousMode();
        try {
            f(rng, i);
        } catch (const std::exception &e) {
            violation("unexpected-exception", std::string("unexpected exception: ") + e.what() + " while processing " + r.detail);
        } catch (...) {
            violation("unexpected-exception", "unexpected exception of unknown type while processing " + r.detail);
        }
    }
}

namespace detail {
inline std::size_t &allocLimit()
{
    static std::size_t l = std::size_t(1) << 26;
    return l;
}
inline void onDeath() { writeReport(true); }
} // namespace detail

struct CustomPunctuation : public std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};

inline int harnessMain(int argc, char **argv, void (*run)())
{
    if (const char *l = std::getenv("VH_LOCALE"); l && *l == '1')
        std::locale::global(std::locale(std::locale::classic(), new CustomPunctuation));
    auto &r = report();
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            r.seed = std::strtoull(v.c_str(), nullptr, 0);
        else if (a == "--cases")
            r.cases = std::strtoull(v.c_str(), nullptr, 0);
        else if (a == "--case")
            r.only = std::strtoull(v.c_str(), nullptr, 0);
        else if (a == "--what")
            r.onlyWhat = v;
        else if (a == "--out")
            r.out = v;
        else if (a == "--thorough")
            r.thorough = v == "1";
    }
    if (__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(&detail::onDeath);
    std::set_terminate([] {
        std::fprintf(stderr, "terminate called\n");
        writeReport(true);
        std::_Exit(99);
    });
    run();
    writeReport(false);
    return r.violations.empty() ? 0 : 1;
}
} // namespace vh
