from ..driver import Check
from ..progs import Prog

TOPS = ["std::map<std::string, int>", "std::multimap<std::string, std::string>", "std::vector<std::string>", "std::list<double>", "std::unordered_map<std::string, std::vector<int>>",
        "std::unordered_multimap<std::string, std::uint64_t>", "std::deque<std::optional<int>>", "std::string", "bool", "int", "unsigned int", "double", "float", "std::int64_t", "std::uint64_t",
        "std::vector<std::map<std::string, std::multimap<std::string, std::tuple<int, double>>>>", "std::map<std::string, std::unique_ptr<std::variant<std::monostate, int, std::string>>>",
        "std::uint8_t", "short", "unsigned long long", "std::int8_t", "char"]

ENORMOUS = ["std::vector<int>", "std::map<std::string, std::set<std::int64_t>>", "std::list<bool>", "std::map<std::string, std::unordered_set<int>>", "std::vector<std::string>",
            "std::map<std::string, std::multiset<int>>", "std::deque<double>", "std::vector<std::tuple<int, bool>>"]


def check(c):
    if c is None:
        return Check("C01", "exploration", "Random class definitions covering every supported pair of nested type constructors plus random deeper nesting; per class random values. "
                     "Non-trivial: the JSON text has content; distinct by (class, text).")
    c.min_evals = 1000
    n = c.scale(8, 24)
    gen = c.generator()
    progs = [Prog(c.seed * 1000 + i, "json", i).populate(i % 8, 8, extra=c.scale(6, 14)) for i in range(n)]
    c.run_programs(gen, progs, "c01", c.scale(120, 2500), ["json"], top=lambda p: TOPS[p.index % 8::8], enormous=ENORMOUS)
