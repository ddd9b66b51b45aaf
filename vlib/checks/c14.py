import random
import re

from .. import build as B
from ..driver import Check

KINDS = ["json", "binary"]
SER = {"json": "JsonSerializable", "binary": "BinarySerializable"}
ADAPT = {"json": "REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE", "binary": "REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE"}
FUNCS = {"json": ("13JsonReflector4push", "13JsonReflector4pull"), "binary": ("15BinaryReflector15writeCustomType", "15BinaryReflector14readCustomType")}
PRE = '''#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/serializable.h>
#ifndef VH_DECOYS
#define VH_DECOYS
namespace decoy {
template <class T> struct JsonSerializable {};
template <class T, unsigned long V = 0> struct BinarySerializable {};
template <class T> struct AdaptedJsonSerializable {};
template <class T> using JsonAlias = ReflectiveRapidJSON::JsonSerializable<T>;
template <class T> using BinaryAlias = ReflectiveRapidJSON::BinarySerializable<T>;
template <class T> struct Indirect : public ReflectiveRapidJSON::JsonSerializable<T>, public ReflectiveRapidJSON::BinarySerializable<T> {};
}
struct JsonSerializable {};
#endif
'''


def mangled(q):
    parts = q.split("::")
    m = "".join(f"{len(p)}{p}" for p in parts)
    return f"N{m}E" if len(parts) > 1 else m


def class_of(s):
    """Returns the mangled (nested) class name s starts with."""
    m = re.match(r"(N?)((?:\d+)[A-Za-z_].*)", s)
    if not m:
        return None
    rest, name = m.group(2), ""
    while rest[:1].isdigit():
        n = re.match(r"\d+", rest).group()
        part = rest[:len(n) + int(n)]
        name += part
        rest = rest[len(part):]
        if not m.group(1):
            return name
    return f"N{name}E" if rest[:1] == "E" else None


def open_ns(ns):
    return [("inline " if n.startswith("inl") else "") + f"namespace {n} {{" for n in ns]


class Header:
    """A random header with includes; knows which classes are relevant for which generator."""

    def __init__(self, seed, index):
        r = self.r = random.Random(seed)
        self.index, self.n = index, 0
        self.classes = []  # dicts
        self.files = {"inc1.h": [], "inc2.h": [], "types.h": []}
        self.listed = {k: [] for k in KINDS}
        self.extra_listed = {k: [] for k in KINDS}
        for f, n in (("inc2.h", r.randrange(1, 4)), ("inc1.h", r.randrange(1, 5)), ("types.h", r.randrange(12, 24) if index % 12 == 5 else r.randrange(3, 10))):
            for _ in range(n):
                self.add(f)
        self.adapts = {f: [] for f in self.files}
        for c in self.classes:
            for k in KINDS:
                x = r.random()
                if c["cls"] and not c["nested_private"] and x < (.85 if index % 12 == 5 else .28):
                    where = r.choice(["types.h", "types.h", "types.h", "inc1.h"])
                    if where == "inc1.h" and c["file"] == "types.h" and (not c["fwd"] or c["nested"]):
                        where = "types.h"
                    c["adapt"][k] = where
                    spelling, x = ("::" if r.random() < .5 else "") + c["q"], r.random()
                    if x < .15:
                        self.adapts[where].append(f"using Alias{k}{c['name']} = {spelling};")
                        spelling = f"Alias{k}{c['name']}"
                    elif x < .25:
                        spelling = "struct " + spelling
                    elif x < .35 and c["inl"]:
                        spelling = re.sub(r"inl\d::", "", spelling)
                    self.adapts[where].append(f"{ADAPT[k]}({spelling});")
                if r.random() < .3 and not c["inl"]:
                    self.listed[k].append(c["q"])
                if r.random() < .1 and not c["inl"]:
                    self.extra_listed[k].append(r.choice([c["name"] + "x", "::" + c["q"], c["q"] + " ", "other::" + c["name"], c["q"].lower()]) if r.random() < .7 else c["name"] if "::" in c["q"] else "nope")
        for l in self.extra_listed.values():
            l[:] = [x for x in l if x not in [c["q"] for c in self.classes]]

    def add(self, file):
        r = self.r
        self.n += 1
        name = f"C{self.n}"
        ns = r.choice([[], ["n1"], ["n1", "n2"], ["other"]] * 3 + [["inl1"], ["n1", "inl2"], ["inl3", "n3"]])
        hosts = [c for c in self.classes if c["file"] == file and c["defined"] and not c["nested"] and not c["fwd"] and not c["linkage"]]  # see nested-within-linkage-specification
        host = r.choice(hosts) if hosts and r.random() < .2 else None
        c = dict(name=name, ns=ns, file=file, defined=r.random() < .88, fwd=r.random() < .25, mark={}, adapt={}, cls=True, nested=host, children=[], nested_private=False, bases=[], inl=any(n.startswith("inl") for n in ns), linkage=r.choice(["C", "C++"]) if r.random() < .12 and not host else None)
        if host:
            c["defined"], c["fwd"] = True, False
            c["q"], c["inl"] = host["q"] + "::" + name, host["inl"]
            host["children"].append(c)
        else:
            c["q"] = "::".join(ns + [name])
        for k in KINDS:
            x = r.random()
            # how the class relates to the serializable base
            c["mark"][k] = "none" if x < .3 else r.choice(["direct"] * 6 + ["alias", "typedef", "private", "foreign", "decoy", "indirect"] + (["version"] if k == "binary" else ["plain"]))
        if any(c["mark"][k] == "indirect" for k in KINDS):
            for k in KINDS:
                if c["mark"][k] != "decoy":
                    c["mark"][k] = "indirect"
            if c["mark"]["json"] != "indirect":
                c["mark"]["json"] = "indirect"
            if c["mark"]["binary"] != "indirect":
                c["mark"]["binary"] = "indirect"
        cand = [b for b in self.classes if b["defined"] and not b["nested"] and b["file"] == file and not b["bases"]]
        if cand and not host and r.random() < .35:
            c["bases"] = [r.choice(cand)]
        self.classes.append(c)

    def relevant(self, c, k, listed=True):
        if not c["defined"]:
            return False
        if c["adapt"].get(k) == "types.h":
            return True
        if c["file"] != "types.h":
            return False
        if c["mark"][k] in ("direct", "alias", "typedef", "private", "foreign", "version"):
            return True
        return listed and c["q"] in self.listed[k]

    def cpp(self, c):
        r = random.Random(c["q"] + str(self.index))
        name = c["name"]
        pre, bases = [], [("public ::" + b["q"]) for b in c["bases"]]
        if c["fwd"] or not c["defined"]:
            pre += [f"struct {name};"] * r.choice([1, 2])
        if not c["defined"]:
            return pre
        done = False
        for k in KINDS:
            m, s = c["mark"][k], SER[k]
            if m == "direct":
                bases.append(f"public ReflectiveRapidJSON::{s}<{name}>")
            elif m == "version":
                bases.append(f"public ReflectiveRapidJSON::{s}<{name}, 3>")
            elif m == "alias":
                bases.append(f"public ::decoy::{'JsonAlias' if k == 'json' else 'BinaryAlias'}<{name}>")
            elif m == "typedef":
                pre += [f"struct {name};", f"typedef ReflectiveRapidJSON::{s}<{name}> {name}{s};"]
                bases.append(f"public {name}{s}")
            elif m == "private":
                bases.append(f"private ReflectiveRapidJSON::{s}<{name}>")
            elif m == "foreign":
                pre += [f"struct Foreign{name};"]
                bases.append(f"public ReflectiveRapidJSON::{s}<Foreign{name}>")
            elif m == "decoy":
                bases.append(f"public ::decoy::{s}<{name}>")
            elif m == "plain":
                bases.append("public ::JsonSerializable")
            elif m == "indirect" and not done:
                done = True
                bases.append(f"public ::decoy::Indirect<{name}>")
        uniq = []
        for b in bases:
            if b not in uniq:
                uniq.append(b)
        r.shuffle(uniq)
        body = ["public:"]
        for ch in c["children"]:
            body += self.cpp(ch)
        body.append(f"    int m{name} = 0;")
        if r.random() < .3:
            body.append(f"    friend struct Friend{name};")
        text = [f"{r.choice(['struct', 'class']) if not pre else 'struct'} {name}" + (" : " + ", ".join(uniq) if uniq else "") + " {"] + body + ["};"]
        return pre + text

    def write(self, d):
        r = self.r
        for f, later in (("inc2.h", None), ("inc1.h", "inc2.h"), ("types.h", "inc1.h")):
            o = ["#pragma once", PRE]
            if later:
                o.append(f'#include "{later}"')
            fwd = [c for c in self.classes if c["file"] == "types.h" and any(w == f for w in c["adapt"].values())] if f == "inc1.h" else []
            for c in fwd:
                o += open_ns(c["ns"]) + [f"struct {c['name']};"] + ["}"] * len(c["ns"])
            for c in self.classes:
                if c["file"] != f or c["nested"]:
                    continue
                outside = r.random() < .5
                link, link_end = ([f'extern "{c["linkage"]}" {{'], ["}"]) if c["linkage"] else ([], [])
                code = self.cpp(c) if outside else link + self.cpp(c) + link_end
                if all(not n.startswith("inl") for n in c["ns"]) and r.random() < .5 and c["ns"]:
                    code = ["namespace " + "::".join(c["ns"]) + " {"] + code + ["}"]
                else:
                    code = open_ns(c["ns"]) + code + ["}"] * len(c["ns"])
                o += link + code + link_end if outside else code
            o += self.adapts[f]
            B.write(f"{d}/{f}", "\n".join(o) + "\n")


def check(c):
    if c is None:
        return Check("C14", "exploration", "Random headers with includes containing marked (directly, via alias or typedef, privately, with foreign argument), unmarked, look-alike, forward declared, nested, derived, adapted (in the "
                     "input or an included header) and listed classes x combinations of generators and options; the generated code is compiled and the functions defined by the object file are compared with the expected "
                     "selection. Evaluations: decisions (class, generator); non-trivial: code expected or class marked/adapted/listed in some way; distinct by (header, class, generator).")
    c.min_evals = 500
    c.required = {"selected": 150, "not selected": 300, "selected due to option": 20, "selected due to adaption of included class": 20, "forward declared only": 10, "selected within inline namespace": 15, "selected within linkage specification": 15, "runs with more than eight adapted classes": 2, "runs with one generator": 10}
    gen = c.generator()

    def nested_within_linkage_specification():
        d = c.out + "/linkage"
        B.write(d + "/types.h", "#pragma once\n" + PRE + 'namespace n { extern "C++" { struct Outer { struct Inner : public ReflectiveRapidJSON::BinarySerializable<Inner> { int m = 0; }; }; } }\n')
        B.write(d + "/main.cpp", '#include "types.h"\n#include "refl.h"\nint used;\n')
        rc, o, e = B.run([gen, "--input-file", d + "/types.h", "--output-file", d + "/refl.h", "--generators", "binary"] + B.generator_args(gen, "", "")[B.generator_args(gen, "", "").index("--clang-opt"):], timeout=600)
        if rc != 0:
            c.violation("generator-run", f"generator fails with exit code {rc} on valid input {d}/types.h:\n{(o + e)[-3000:]}", unit="linkage")
            return
        try:
            B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", ["-std=gnu++17", "-O0", "-w", "-I" + d, "-ferror-limit=5"] + B.INC)
        except B.Failure as f:
            known = "undeclared identifier 'Outer'" in f.message
            c.violation("nested-within-linkage-specification" if known else f.key, f.message, unit="linkage")

    def job(i):
        if i < 0:
            if not c.replay or c.replay.get("unit") in (None, "linkage"):
                nested_within_linkage_specification()
            return
        unit = f"header{i}"
        if c.replay and c.replay.get("unit") not in (None, unit):
            return
        r = random.Random(c.seed * 7919 + i)
        h = Header(c.seed * 1000 + i, i)
        d = f"{c.out}/{unit}"
        h.write(d)
        mode = r.choice([["json"], ["binary"], ["json", "binary"], ["json", "binary"], ["binary", "json"], []])
        opts, weak = [], {}
        use_list = {}
        for k in KINDS:
            use_list[k] = r.random() < .7 and (h.listed[k] or h.extra_listed[k])
            if use_list[k]:
                l = h.listed[k] + h.extra_listed[k]
                r.shuffle(l)
                opts += [f"--{k}-classes"] + l
            weak[k] = r.random() < .3
            if weak[k]:
                opts += [f"--{k}-visibility", "__attribute__((weak))"]
        cmd = [gen, "--input-file", d + "/types.h", "--output-file", d + "/refl.h"] + (["--generators"] + mode if mode else []) + opts + B.generator_args(gen, "", "")[B.generator_args(gen, "", "").index("--clang-opt"):]
        rc, o, e = B.run(cmd, timeout=600)
        if rc != 0:
            c.violation("generator-run", f"generator fails with exit code {rc} on valid input {d}/types.h:\n{(o + e)[-3000:]}", unit=unit)
            return
        B.write(d + "/main.cpp", '#include "types.h"\n#include "refl.h"\nint used;\n')
        try:
            B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", ["-std=gnu++17", "-O0", "-w", "-I" + d, "-ferror-limit=5"] + B.INC)
        except B.Failure as f:
            c.violation(f.key, f.message, unit=unit)
            return
        rc, syms, _ = B.run(["nm", "--defined-only", d + "/main.o"])
        found = {}
        for line in syms.splitlines():
            kind, sym = line.split()[-2:]
            for fns in FUNCS.values():
                for fn in fns:
                    prefix = "_ZN19ReflectiveRapidJSON" + fn + "I"
                    if sym.startswith(prefix):
                        q = class_of(sym[len(prefix):])
                        if q:
                            found[(fn, q)] = kind
        c.count("generator runs")
        if sum(1 for cl in h.classes if cl["adapt"].get("json")) > 8:
            c.count("runs with more than eight adapted classes")
        c.count("runs with one generator" if len(mode) == 1 else "runs with both generators" if mode else "runs with default generators")
        enabled = mode or ["json"]
        for k in KINDS:
            if not mode and k == "binary":
                continue
            for cl in h.classes:
                expected = k in enabled and h.relevant(cl, k, use_list[k])
                c.evals += 1
                c.distinct += 1 if expected or cl["mark"][k] != "none" or cl["adapt"].get(k) or cl["q"] in h.listed[k] else 0
                c.count("selected" if expected else "not selected")
                if expected and cl["adapt"].get(k) and cl["file"] != "types.h":
                    c.count("selected due to adaption of included class")
                elif expected and not cl["adapt"].get(k) and not h.relevant(cl, k, False):
                    c.count("selected due to option")
                if expected and cl["inl"]:
                    c.count("selected within inline namespace")
                if expected and cl["linkage"]:
                    c.count("selected within linkage specification")
                if not cl["defined"]:
                    c.count("forward declared only")
                for fn in FUNCS[k]:
                    got = found.get((fn, mangled(cl["q"])))
                    where = f"{unit}: class {cl['q']} defined in {cl['file'] if cl['defined'] else 'no file'} (mark {cl['mark'][k]}, adapted in {cl['adapt'].get(k)}, {'' if cl['q'] in h.listed[k] and use_list[k] else 'not '}listed) with generators {mode}"
                    if bool(got) != bool(expected):
                        c.violation("missing" if expected else "surplus", f"{where}: {fn[2:]} is {'not ' if expected else ''}generated", unit=unit)
                    elif got and (got == "W") != weak[k]:
                        c.violation("visibility", f"{where}: {fn[2:]} is emitted as {got} despite visibility attribute {weak[k]}", unit=unit)
            known = [mangled(cl["q"]) for cl in h.classes]
            for fn, q in found:
                if fn in FUNCS[k] and q not in known:
                    c.violation("surplus", f"{unit}: {fn} is generated for {q}", unit=unit)
        c.sample(f"{unit}: generators {mode} {' '.join(opts)}: " + " ".join(sorted(q for f, q in found if f.endswith(("push", "writeCustomType")))))
    c.guarded(job, range(-1, c.scale(96, 800)))
