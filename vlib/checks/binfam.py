"""Common part of the checks running on random programs with binary (de)serialization."""
from ..progs import Prog

TOPS = ["std::map<std::string, int>", "std::unordered_map<int, std::string>", "std::multimap<std::string, std::vector<int>>", "std::vector<std::string>", "std::list<double>",
        "std::set<std::string>", "std::unordered_set<int>", "std::multiset<int>", "std::pair<int, std::string>", "std::string", "int", "double", "std::uint64_t", "std::int16_t", "char",
        "std::optional<std::string>", "std::unique_ptr<std::string>", "std::shared_ptr<std::string>", "std::variant<std::monostate, int, std::string>", "std::vector<std::shared_ptr<int>>",
        "std::map<std::int64_t, std::map<char, std::uint8_t>>", "std::deque<std::uint16_t>", "std::unordered_multiset<std::string>", "std::unordered_multimap<std::uint8_t, float>",
        "std::pair<std::vector<std::shared_ptr<int>>, std::list<std::shared_ptr<std::string>>>", "std::vector<std::variant<std::shared_ptr<int>, std::shared_ptr<unsigned int>, std::monostate>>",
        "std::map<int, std::pair<std::shared_ptr<std::vector<int>>, std::shared_ptr<std::list<int>>>>"]
ENORMOUS = ["std::set<int>", "std::map<int, bool>", "std::unordered_set<std::uint64_t>", "std::multimap<int, char>", "std::vector<std::string>", "std::unordered_map<std::uint32_t, std::int16_t>",
            "std::multiset<std::uint16_t>", "std::list<double>", "std::vector<char>", "std::unordered_multiset<int>", "std::deque<std::uint8_t>", "std::unordered_multimap<std::int64_t, std::uint64_t>",
            "std::vector<std::pair<int, char>>", "std::map<std::uint64_t, std::vector<int>>", "std::vector<std::variant<int, bool>>", "std::string"]


def programs(c, n=8, tn=24, extra=(6, 14), mode="bin", **kw):
    n = c.scale(n, tn)
    return [Prog(c.seed * 1000 + 500 + i, mode, i, **kw).populate(i % 8, 8, extra=c.scale(*extra)) for i in range(n)]


def run(c, header, quick_cases, thorough_cases, tops=True, min_evals=1000, progs=None, extra=None, enormous=False, **kw):
    c.min_evals = min_evals
    gen = c.generator()
    c.run_programs(gen, progs or programs(c, **kw), header, c.scale(quick_cases, thorough_cases), ["binary"], top=(lambda p: TOPS[p.index % 8::8]) if tops else None, extra=extra, enormous=ENORMOUS if enormous else ())
    return gen
