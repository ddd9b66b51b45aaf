// Shared helpers of the JSON deserialization checks
#pragma once
#include "lib.h"
namespace vhcheck {
using namespace vh;

// a document resembling T but with 0..n structural mutations
template <class T> J genDoc(Rng &r, unsigned maxMutations, unsigned *applied = nullptr)
{
    const auto budget = r.budget;
    const bool huge = r.huge;
    J d = refPush(gen<T>(r));
    r.budget = budget;
    if (huge) { // many errors within one document
        r.huge = false;
        std::vector<J *> nodes;
        collect(d, nodes);
        const unsigned percent = static_cast<unsigned>(r.pick(std::vector<int>{ 1, 30, 95 }));
        std::reverse(nodes.begin(), nodes.end()); // children before parents replacing them
        for (auto *n : nodes) {
            if (n->k == J::Arr && n->a.size() > 100)
                for (auto &x : n->a)
                    if (r.chance(percent))
                        x = genJ(r, 3);
            if (n->k == J::Obj && n->o.size() > 100)
                for (auto &x : n->o)
                    if (r.chance(percent))
                        x.second = genJ(r, 3);
        }
    }
    auto n = r.below(maxMutations + 1);
    if (applied)
        *applied = static_cast<unsigned>(n);
    for (; n; --n)
        mutate(d, r);
    return d;
}
// whether the document might be pulled into T at the top level
template <class T> bool topMatches(const J &d) { return expectedType<T>() == jt(d); }

template <class T> struct Outcome {
    bool parseError = false;
    bool thrown = false;
    int code = 0;
    std::size_t offset = 0;
    std::optional<Err> error; // thrown JsonDeserializationError
    std::unique_ptr<T> value;
    std::vector<Err> errors;
};
// runs a deserialization and records what happened
template <class T, class F> Outcome<T> observe(F &&f, RR::JsonDeserializationErrors *errors)
{
    Outcome<T> o;
    try {
        o.value.reset(new T(f()));
    } catch (const RJ::ParseResult &p) {
        o.parseError = o.thrown = true;
        o.code = static_cast<int>(p.Code());
        o.offset = p.Offset();
    } catch (const RR::JsonDeserializationError &e) {
        o.thrown = true;
        o.error = conv(e);
    }
    if (errors)
        o.errors = conv(*errors);
    return o;
}
template <class T> std::string text(const Outcome<T> &o)
{
    if (o.parseError)
        return "parse error " + std::to_string(o.code) + " at " + std::to_string(o.offset);
    if (o.thrown)
        return "thrown " + o.error->text() + " errors " + vh::text(o.errors);
    return dumped(*o.value) + " errors " + vh::text(o.errors);
}
template <class T> bool agree(const Outcome<T> &a, const Outcome<T> &b, bool compareErrors = true)
{
    if (a.parseError != b.parseError || a.thrown != b.thrown || a.error != b.error)
        return false;
    if (a.parseError)
        return a.code == b.code && a.offset == b.offset;
    if (compareErrors && a.errors != b.errors)
        return false;
    return a.thrown || same(*a.value, *b.value);
}
inline void countKinds(const std::vector<Err> &e)
{
    for (auto &x : e)
        count(std::string("error ") + name(x.kind));
}
} // namespace vhcheck
