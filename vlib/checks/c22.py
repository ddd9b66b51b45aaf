"""C22: CMake macro add_reflection_generator_invocation()."""
import json
import os
import random
import shutil
import time

from .. import build as B
from ..driver import Check

STUB = '''#!/usr/bin/python3 -SE
import os, sys
root = %r
a = sys.argv[1:]
def val(o):
    return a[a.index(o) + 1] if o in a[:-1] else ""
out, src = val("--output-file"), val("--input-file")
fd = os.open(root + "/log", os.O_WRONLY | os.O_APPEND | os.O_CREAT)
os.write(fd, (repr((os.getcwd(), a)) + "\\n").encode())
os.close(fd)
if out:
    with open(out, "w") as f:
        f.write("// generated\\n")
if os.path.exists(root + "/fail-" + os.path.basename(src)):
    sys.stderr.write("stub fails\\n")
    sys.exit(int(open(root + "/fail-" + os.path.basename(src)).read()))
'''
MACRO = B.REPO + "/lib/cmake/modules/ReflectionGenerator.cmake"
ONE = {"--output-file", "--input-file", "--json-visibility", "--binary-visibility"}
MANY = {"--generators", "--clang-opt", "--json-classes"}
PAIRED = {"-resource-dir", "-target", "-triple", "-isystem", "-include", "-iquote", "-x"}


def q(s):
    """Quotes a CMake argument."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def parse_args(argv):
    """Parses the command line the way the generator does."""
    res, i = {}, 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if a in ONE:
            if a in res:
                return None, "option %s passed twice" % a
            if i >= len(argv):
                return None, "value of option %s missing" % a
            res[a] = argv[i]
            i += 1
        elif a in MANY:
            vals = res.setdefault(a, [])
            while i < len(argv) and argv[i] not in ONE | MANY | {"--error-resilient"}:
                vals.append(argv[i])
                i += 1
        elif a == "--error-resilient":
            res[a] = True
        else:
            return None, "unexpected argument %r" % a
    return res, None


def units(opts):
    """Turns a flat list of compiler options into a list of semantic units."""
    res, i = [], 0
    while i < len(opts):
        o = opts[i]
        i += 1
        if o == "-Xclang" and i < len(opts):
            v = ["-Xclang", opts[i]]
            i += 1
            if v[1] in PAIRED and i + 1 < len(opts) and opts[i] == "-Xclang":
                v += opts[i:i + 2]
                i += 2
            res.append(tuple(v))
        elif o in ("-I", "-D") and i < len(opts):
            res.append((o + opts[i],))
            i += 1
        elif o in PAIRED and i < len(opts):
            res.append((o, opts[i]))
            i += 1
        else:
            res.append((o,))
    return res


class Target:
    def __init__(self, name, interface):
        self.name, self.interface = name, interface
        # name -> list of (CMake text, [values])
        self.defs, self.opts, self.incs, self.idefs, self.iopts, self.iincs = [], [], [], [], [], []
        self.std, self.flags, self.links = None, None, []

    def interface_of(self, kind, seen=None):
        """Values others get by linking against this target."""
        seen = set() if seen is None else seen
        if self.name in seen:
            return []
        seen.add(self.name)
        own = getattr(self, "i" + kind)
        res = [v for _, vs in own for v in vs]
        for l, vis in self.links:
            if vis != "PRIVATE":
                res += l.interface_of(kind, seen)
        return res

    def all_of(self, kind):
        res = [v for _, vs in getattr(self, kind) for v in vs]
        seen = {self.name}
        for l, vis in self.links:
            if vis != "INTERFACE":
                res += l.interface_of(kind, seen)
        return res

    def options(self):
        o = []
        if self.std:
            o.append("-std=c++%d" % self.std)
        if self.flags:
            o.append(self.flags)
        return [o, self.all_of("opts"), ["-D" + d for d in self.all_of("defs")], ["-I" + i for i in self.all_of("incs")]]

    def interface_options(self):
        return [self.interface_of("opts"), ["-D" + d for d in self.interface_of("defs")], ["-I" + i for i in self.interface_of("incs")]]


class Invocation:
    pass


class Project:
    def __init__(self, r, root, seed):
        self.r, self.root = r, root
        sp = " sp" if r.random() < .3 else ""
        self.src, self.bin = root + "/src" + sp, root + "/b"
        self.cmake = r.choice(["Ninja", "Unix Makefiles"])
        self.stub = root + "/stub" + sp
        self.n = 0
        self.triple = r.choice([None, None, "i686-w64-mingw32", "x86_64-pc-linux-gnu"])
        self.xinc = [d for d in [root + "/xinc1", root + "/xinc 2"] if r.random() < .3]
        self.resdir = root + "/res dir" if r.random() < .5 else root + "/res"
        for d in self.xinc + [self.resdir]:
            os.makedirs(d, exist_ok=True)
        self.targets = []
        self.invs = []
        self.dirs = [("", self.src, self.bin)]
        if r.random() < .5:
            self.dirs.append(("sub", self.src + "/sub", self.bin + "/sub"))
        if r.random() < .3:
            self.dirs.append(("lib", self.src + "/lib", self.bin + "/bin lib"))
        for i in range(r.choice([0, 1, 2, 3, 4])):
            self.targets.append(self.target(i))
        for rel, s, b in self.dirs:
            for _ in range(r.choice([1, 1, 2, 3])):
                self.invs.append(self.invocation(rel, s, b))

    def uid(self):
        self.n += 1
        return self.n

    def target(self, i):
        r = self.r
        t = Target("tgt%d" % i, r.random() < .35)

        def value(kind):
            n = self.uid()
            if kind == "defs":
                return r.choice(["D%d", "D%d=1", "D%d=a b", 'D%d="quoted text"', "D%d='x'", "D%d=f(x,y)", "D%d=a/b\\c", "D%d=$HOME", "D%d=äö", "D%d=", "D%d=x&y|z", "D%d=%%PATH%%"]) % n
            if kind == "opts":
                return r.choice(["-fopt%d", "-Wno-w%d", "-Xopt%d=a b", "-O%d", "-m%d='q'", "--param=p%d=1"]) % n
            d = self.root + r.choice(["/inc%d", "/inc dir %d"]) % n
            return d

        def values(kind):
            res = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                v = value(kind)
                x = r.random()
                plain = not any(c in v for c in ",>\\\"' $|")
                if x < .6 or not plain:
                    res.append((q(v), [v]) if "$" not in v else (q(v).replace("$", "\\$"), [v]))
                elif x < .7:
                    res.append((q("$<$<BOOL:1>:%s>" % v), [v]))
                elif x < .8:
                    res.append((q("$<$<BOOL:0>:%s>" % v), []))
                elif x < .9:
                    w = value(kind)
                    if any(c in w for c in ",>\\\"' $|"):
                        res.append((q(v), [v]))
                    else:
                        res.append((q("$<$<BOOL:1>:%s;%s>" % (v, w)), [v, w]))
                else:
                    res.append((q("$<BUILD_INTERFACE:%s>" % v), [v]))
            return res
        for k in ("defs", "opts", "incs"):
            if r.random() < .7:
                iv = values(k)
                if not t.interface:
                    pv = values(k)
                    setattr(t, k, pv + iv)
                    t.__dict__["p" + k] = pv
                setattr(t, "i" + k, iv)
        if not t.interface:
            t.std = r.choice([None, None, 11, 17, 20])
            t.flags = r.choice([None, None, None, "-fflag%d" % self.uid()])
        if self.targets:
            for l in r.sample(self.targets, min(len(self.targets), r.choice([0, 1, 1, 2]))):
                t.links.append((l, "INTERFACE" if t.interface else r.choice(["PRIVATE", "PUBLIC", "INTERFACE"])))
        return t

    def target_text(self, t):
        o = ["add_library(%s %s)" % (t.name, "INTERFACE" if t.interface else "STATIC dummy.cpp")]
        cmds = dict(defs="target_compile_definitions", opts="target_compile_options", incs="target_include_directories")
        for k, cmd in cmds.items():
            for vis, vals in (("PRIVATE", t.__dict__.get("p" + k, [])), ("INTERFACE" if t.interface else "PUBLIC", getattr(t, "i" + k))):
                for text, _ in vals:
                    if k == "defs":  # the command strips leading -D and has own quirks => append to the property
                        props = ["INTERFACE_COMPILE_DEFINITIONS"] if vis == "INTERFACE" else ["COMPILE_DEFINITIONS"] + (["INTERFACE_COMPILE_DEFINITIONS"] if vis == "PUBLIC" else [])
                        o += ["set_property(TARGET %s APPEND PROPERTY %s %s)" % (t.name, p, text) for p in props]
                    else:
                        o.append("%s(%s %s %s)" % (cmd, t.name, vis, text))
        if t.std:
            o.append("set_target_properties(%s PROPERTIES CXX_STANDARD %d)" % (t.name, t.std))
        if t.flags:
            o.append("set_property(TARGET %s PROPERTY COMPILE_FLAGS %s)" % (t.name, q(t.flags)))
        for l, vis in t.links:
            o.append("target_link_libraries(%s %s %s)" % (t.name, vis, l.name))
        return o

    def invocation(self, rel, sdir, bdir):
        r, v = self.r, Invocation()
        v.rel, v.sdir, v.bdir, v.id = rel, sdir, bdir, self.uid()
        v.inputs = []  # (text, absolute path)
        for _ in range(r.choice([1, 1, 2, 3])):
            n = "in%d" % self.uid() + r.choice([".h", ".cpp", ".hpp", "-x.h", "_y.cxx", " z.h"])
            p = r.choice(["", "", "d/", "d e/", "../" if rel else ""]) + n
            full = os.path.normpath(sdir + "/" + p)
            v.inputs.append((full if r.random() < .3 else p, full))
        v.generators = r.choice([["json"], ["binary"], ["json", "binary"], ["binary", "json"]])
        x = r.random()
        v.outdir = None
        v.outabs = bdir + "/reflection"
        if x < .25:
            v.outdir = r.choice(["custom/directory", "out dir%d" % self.uid(), "x/y"])
            v.outabs = os.path.normpath(bdir + "/" + v.outdir)
        elif x < .45:
            v.outdir = v.outabs = self.root + r.choice(["/abs/out%d", "/abs/out %d/x"]) % self.uid()
        v.lists = {}
        for _ in range(r.choice([0, 1, 1, 2])):
            v.lists["L%d" % self.uid()] = ["pre%d.h" % self.uid() for _ in range(r.choice([0, 0, 1, 2]))]
        v.clang = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            n = self.uid()
            v.clang.append(r.choice(["-DOPT%d", "-DOPT%d=a b", '-DOPT%d="s"', "-fc%d", "-I/some/dir%d", "-std=c++2%d"]) % n)
        t = [x for x in self.targets if not x.interface]
        v.targets = r.sample(t, min(len(t), r.choice([0, 1, 1, 2])))
        v.deps = r.sample(self.targets, min(len(self.targets), r.choice([0, 0, 1, 2])))
        v.missing_dep = r.random() < .1
        v.classes = [r.choice(["Foo%d", "ns::Foo%d"]) % self.uid() for _ in range(r.choice([0, 0, 1, 3]))]
        v.jvis = r.choice([None, None, "MY_EXPORT", "__attribute__((visibility(\"default\")))"])
        v.bvis = r.choice([None, None, "BIN_EXPORT", "X Y"])
        v.resilient = r.random() < .3
        return v

    def invocation_text(self, v):
        r = self.r
        parts = [["INPUT_FILES"] + [q(i[0]) for i in v.inputs], ["GENERATORS"] + v.generators]
        if v.outdir:
            parts.append(["OUTPUT_DIRECTORY", q(v.outdir)])
        if v.lists:
            parts.append(["OUTPUT_LISTS"] + list(v.lists))
        if v.clang:
            parts.append(["CLANG_OPTIONS"] + [q(x) for x in v.clang])
        if v.targets:
            parts.append(["CLANG_OPTIONS_FROM_TARGETS"] + [t.name for t in v.targets])
        if v.deps or v.missing_dep:
            parts.append(["CLANG_OPTIONS_FROM_DEPENDENCIES"] + [t.name for t in v.deps] + (["NotATarget"] if v.missing_dep else []))
        if v.classes:
            parts.append(["JSON_CLASSES"] + v.classes)
        if v.jvis:
            parts.append(["JSON_VISIBILITY", q(v.jvis)])
        if v.bvis:
            parts.append(["BINARY_VISIBILITY", q(v.bvis)])
        if v.resilient:
            parts.append(["ERROR_RESILIENT"])
        r.shuffle(parts)
        o = ["set(%s %s)" % (k, " ".join(map(q, p))) for k, p in v.lists.items()]
        o.append("add_reflection_generator_invocation(\n    " + "\n    ".join(" ".join(p) for p in parts) + "\n)")
        for k in v.lists:
            o.append('file(WRITE "%s/list-%s" "${%s}")' % (self.root, k, k))
        v.outputs = [v.outabs + "/" + os.path.basename(f).rsplit(".", 1)[0] + ".h" for _, f in v.inputs]
        o.append("add_custom_target(gen%d ALL DEPENDS %s)" % (v.id, " ".join(map(q, v.outputs))))
        o.append("add_dependencies(genall gen%d)" % v.id)
        return o

    def write(self):
        for d in set(os.path.dirname(f) for v in self.invs for _, f in v.inputs):
            os.makedirs(d, exist_ok=True)
        for v in self.invs:
            for _, f in v.inputs:
                B.write(f, "// input\n")
        B.write(self.stub, STUB % self.root)
        os.chmod(self.stub, 0o755)
        B.write(self.src + "/dummy.cpp", "int dummy() { return 0; }\n")
        for i, (rel, s, b) in enumerate(self.dirs):
            o = []
            if not i:
                o = ["cmake_minimum_required(VERSION 3.17)", "project(x CXX)", "include(%s)" % q(MACRO), "add_custom_target(genall)"]
                for t in self.targets:
                    o += self.target_text(t)
            for v in self.invs:
                if v.rel == rel:
                    o += self.invocation_text(v)
            if not i:
                for rel2, _, b2 in self.dirs[1:]:
                    o.append("add_subdirectory(%s %s)" % (rel2, q(b2)))
            B.write(s + "/CMakeLists.txt", "\n".join(o) + "\n")

    def configure(self):
        cmd = ["cmake", "-G", self.cmake, "-S", self.src, "-B", self.bin, "-DCMAKE_CXX_COMPILER_WORKS=1", "-DCMAKE_CXX_COMPILER=clang++", "-DREFLECTION_GENERATOR_EXECUTABLE=" + self.stub,
               "-DREFLECTION_GENERATOR_CLANG_RESOURCE_DIR=" + self.resdir]
        if self.triple:
            cmd.append("-DREFLECTION_GENERATOR_TRIPLE=" + self.triple)
        if self.xinc:
            cmd.append("-DREFLECTION_GENERATOR_INCLUDE_DIRECTORIES=" + ";".join(self.xinc))
        return B.run(cmd, timeout=200)

    def build(self):
        try:
            os.unlink(self.root + "/log")
        except OSError:
            pass
        rc, out, err = B.run(["cmake", "--build", self.bin, "--target", "genall", "-j", "2"], timeout=200)
        runs = []
        try:
            with open(self.root + "/log") as f:
                runs = [eval(l, {}) for l in f]
        except OSError:
            pass
        return rc, out + err, runs

    # --- expectations
    def sources(self, v):
        s = [list(v.clang), ["-resource-dir", self.resdir]]
        if self.triple:
            s.append(["-target", self.triple])
            s.append(["-Xclang", "-triple", "-Xclang", self.triple])
        s.append(["-I" + d for d in self.xinc])
        for t in v.targets:
            s += t.options()
        for t in v.deps:
            s += t.interface_options()
        return s

    def expected(self):
        return {full: (v, out) for v in self.invs for (_, full), out in zip(v.inputs, v.outputs)}


def check_run(p, cwd, argv, exp):
    """Compares one recorded invocation with what has been requested; returns (input, problem)."""
    args, err = parse_args(argv)
    if err:
        return None, err
    full = os.path.normpath(os.path.join(cwd, args.get("--input-file", "")))
    if full not in exp:
        return None, "unexpected input %r" % args.get("--input-file")
    v, out = exp[full]

    def bad(what, got, want):
        return full, "%s is %r instead of %r" % (what, got, want)
    got = os.path.normpath(os.path.join(cwd, args.get("--output-file", "")))
    if got != out:
        return bad("output", got, out)
    if sorted(args.get("--generators", [])) != sorted(v.generators):
        return bad("list of generators", args.get("--generators"), v.generators)
    if args.get("--json-classes", []) != v.classes:
        return bad("list of classes", args.get("--json-classes"), v.classes)
    for o, want in (("--json-visibility", v.jvis), ("--binary-visibility", v.bvis)):
        if args.get(o) != want:
            return bad(o, args.get(o), want)
    if args.get("--error-resilient", False) != v.resilient:
        return bad("--error-resilient", args.get("--error-resilient", False), v.resilient)
    # values are split by ";" by the generator and empty ones are ignored
    flat = [x for a in args.get("--clang-opt", []) for x in a.split(";") if x]
    have = units(flat)
    want = [units(s) for s in p.sources(v)]
    ws, hs = set(u for s in want for u in s), set(have)
    if ws - hs:
        return full, "options %r not passed: %r" % (sorted(ws - hs), args.get("--clang-opt"))
    if hs - ws:
        return full, "unexpected options %r passed: %r" % (sorted(hs - ws), args.get("--clang-opt"))
    for s in want:  # order of options from the same source
        s = list(dict.fromkeys(s))
        pos = [have.index(u) for u in s]
        rep = [u for u in s if sum(u in x for x in want) > 1]
        if pos != sorted(pos) and not rep:
            return full, "order of options %r changed: %r" % (s, have)
    return full, None


def project(c, i):
    unit = f"project{i}"
    if c.replay and c.replay.get("unit") != unit:
        return
    root = f"{c.out}/{unit}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    r = random.Random("%d-%d-c22" % (c.seed, i))
    p = Project(r, root, i)
    p.write()

    def bad(key, msg):
        c.violation(key, f"{unit} ({p.cmake}): {msg}", unit=unit)
    rc, out, err = p.configure()
    if rc is None:
        raise B.Broken("cmake timed out")
    if rc != 0:
        return bad("configure", "configuring fails\n" + (out + err)[-3000:])
    exp = p.expected()
    c.count("projects")
    c.count("projects with " + p.cmake)
    for v in p.invs:
        c.evals += 1
        for name, pre in v.lists.items():
            with open(f"{root}/list-{name}") as f:
                have = f.read().split(";")
            if not all(map(os.path.isabs, have[len(pre):])) or have[:len(pre)] + [os.path.normpath(x) for x in have[len(pre):]] != pre + v.outputs:
                bad("output-list", f"list {name} contains {have!r} instead of {pre + v.outputs!r}")
            c.count("output lists")
        c.count("macro invocations")
        c.count("targets used", len(v.targets) + len(v.deps))

    def build(what, want, ok=True):
        """Builds and checks that exactly the wanted inputs are processed."""
        rc, text, runs = p.build()
        c.evals += 1
        c.count("builds: " + what)
        if rc is None:
            raise B.Broken("build timed out")
        if (rc == 0) != ok:
            bad("build-result", f"{what}: build {'fails' if ok else 'succeeds'}\n{text[-2000:]}")
            return
        seen = []
        for cwd, argv in runs:
            c.evals += 1
            c.count("generator invocations observed")
            full, problem = check_run(p, cwd, argv, exp)
            if problem:
                bad("invocation", f"{what}: {problem}; arguments: {argv!r}")
                return
            seen.append(full)
        if want is not None and sorted(seen) != sorted(want):
            bad("runs", f"{what}: generator has been run for {sorted(seen)!r} instead of {sorted(want)!r}")
        return seen

    full = sorted(exp)
    shown = dict(exp[full[0]][0].__dict__)
    c.sample(f"{p.cmake}: " + str({k: (v if not isinstance(v, list) or not v or not isinstance(v[0], Target) else [t.name for t in v]) for k, v in shown.items()}))
    c.distinct += len(p.invs)
    if build("initial", full) is None:
        return
    for f in full:
        if not os.path.exists(exp[f][1]):
            return bad("output", "output %s does not exist" % exp[f][1])
    build("unchanged", [])

    def touch(f):
        time.sleep(.03)
        B.write(f, "// changed %d\n" % r.randrange(10**9))
    for _ in range(2):
        x = r.sample(full, r.randrange(1, len(full) + 1) if r.random() < .5 else 1)
        for f in x:
            touch(f)
        build("changed input", x)
    x = r.choice(full)
    os.unlink(exp[x][1])
    build("deleted output", [x])
    # failing generator
    x = r.choice(full)
    fail = f"{root}/fail-{os.path.basename(x)}"
    B.write(fail, r.choice(["1", "2", "255", "77"]))
    touch(x)
    build("failing generator", [x], ok=False)
    build("failing generator, again", [x], ok=False)
    y = r.choice([f for f in full if f != x] or [x])
    touch(y)
    os.unlink(fail)
    build("generator recovered", sorted({x, y}))
    build("unchanged", [])


# --- projects using the real generator --------------------------------------------------------------------------------
def real(c, gen):
    unit = "real"
    if c.replay and c.replay.get("unit") != unit:
        return
    root = f"{c.out}/{unit}"
    shutil.rmtree(root, ignore_errors=True)
    r = random.Random("%d-real" % c.seed)
    d = {k: r.randrange(10**6) for k in ("A", "B", "C")}
    B.write(root + "/extra inc/extra.h", "#pragma once\n#include <reflective_rapidjson/json/serializable.h>\n#include <reflective_rapidjson/binary/serializable.h>\n#define FROM_EXTRA 1\n")
    B.write(root + "/structs.h", f"""#pragma once
#include <extra.h>
#include <string>
using namespace ReflectiveRapidJSON;
#if DEF_A == {d['A']} && defined(DEF_B) && DEF_C == {d['C']} && FROM_EXTRA && __cplusplus >= 201703L && FLAG_X && IFACE
struct Foo : public JsonSerializable<Foo>, public BinarySerializable<Foo> {{ int a = 0; std::string b; }};
#endif
struct Bar : public JsonSerializable<Bar> {{ int c = 0; }};
""")
    B.write(root + "/more.cpp", '#include "structs.h"\n#include "custom/out/more.h"\n')
    B.write(root + "/other.h", "#pragma once\n#include \"structs.h\"\nstruct Other : public BinarySerializable<Other> { std::string o; };\n")
    B.write(root + "/main.cpp", """#include "structs.h"
#include "other.h"
#include "reflection/structs.h"
#include "custom/out/other.h"
#include <sstream>
#include <cstdio>
int main() {
    Foo f; f.a = 42; f.b = "x";
    if (std::string(f.toJson().GetString()) != "{\\"a\\":42,\\"b\\":\\"x\\"}") return 1;
    std::stringstream s; s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    f.toBinary(s);
    if (s.str() != std::string("\\0\\0\\0\\x2a\\x81x", 6)) return 2;
    Other o; o.o = "yz"; o.toBinary(s);
    auto g = Foo::fromBinary(s); auto p = Other::fromBinary(s);
    if (g.a != 42 || p.o != "yz") return 3;
    if (Bar::fromJson("{\\"c\\":5}").c != 5) return 4;
    puts("fine");
}
""")
    g = r.choice(["Ninja", "Unix Makefiles"])
    B.write(root + "/CMakeLists.txt", f"""cmake_minimum_required(VERSION 3.17)
project(real CXX)
include({q(MACRO)})
add_library(iface INTERFACE)
target_compile_definitions(iface INTERFACE IFACE=1)
target_include_directories(iface INTERFACE "${{CMAKE_CURRENT_SOURCE_DIR}}/extra inc" {q(B.REPO + "/lib/include")} /usr/include/martchus-c++utilities)
set(HDRS)
add_executable(app main.cpp)
target_compile_definitions(app PRIVATE DEF_A={d['A']} DEF_B "DEF_C={d['C']}")
target_compile_options(app PRIVATE -DFLAG_X=1)
set_target_properties(app PROPERTIES CXX_STANDARD 17)
target_link_libraries(app PRIVATE iface martchus-c++utilities)
target_include_directories(app PRIVATE "${{CMAKE_CURRENT_BINARY_DIR}}")
add_reflection_generator_invocation(INPUT_FILES structs.h GENERATORS json binary OUTPUT_LISTS HDRS CLANG_OPTIONS_FROM_TARGETS app)
add_reflection_generator_invocation(INPUT_FILES other.h GENERATORS binary OUTPUT_DIRECTORY custom/out OUTPUT_LISTS HDRS CLANG_OPTIONS -DDEF_A={d['A']} -std=c++17 CLANG_OPTIONS_FROM_DEPENDENCIES iface)
target_sources(app PRIVATE ${{HDRS}})
""")
    b = root + "/b"
    rc, out, err = B.run(["cmake", "-G", g, "-S", root, "-B", b, "-DCMAKE_CXX_COMPILER_WORKS=1", "-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_CXX_FLAGS=-O0 -w", "-DREFLECTION_GENERATOR_EXECUTABLE=" + gen,
                          "-DREFLECTION_GENERATOR_CLANG_BIN=/usr/lib/llvm-18/bin/clang"], timeout=300)
    if rc != 0:
        c.violation("real-configure", (out + err)[-3000:], unit=unit)
        return

    def build(what, ok):
        rc, out, err = B.run(["cmake", "--build", b], timeout=600)
        c.evals += 1
        c.count("builds with real generator")
        if rc is None:
            raise B.Broken("build timed out")
        if (rc == 0) != ok:
            c.violation("real-build", f"{what}: build {'fails' if ok else 'succeeds'} ({g})\n" + (out + err)[-3000:], unit=unit)
            return False
        return True
    if not build("initial", True):
        return
    rc, out, err = B.run([b + "/app"], timeout=60)
    if rc != 0 or out.strip() != "fine":
        c.violation("real-result", f"exit code {rc}: {out}{err}", unit=unit)
    for what in ("struct Broken : public JsonSerializable<Broken> { unknown x; };\n", "#error failure\n", "#include <not/existing.h>\n"):
        with open(root + "/other.h") as f:
            text = f.read()
        time.sleep(.03)
        with open(root + "/other.h", "w") as f:
            f.write(text + what)
        build("erroneous input", False)
        build("erroneous input, again", False)
        time.sleep(.03)
        B.write(root + "/other.h", text)
    build("repaired input", True)


def probe_flags(c):
    """Known finding: several flags within COMPILE_FLAGS."""
    unit = "flags"
    root = f"{c.out}/{unit}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    B.write(root + "/stub", STUB % root)
    os.chmod(root + "/stub", 0o755)
    B.write(root + "/in.h", "")
    B.write(root + "/dummy.cpp", "")
    B.write(root + "/CMakeLists.txt", f"""cmake_minimum_required(VERSION 3.17)
project(x CXX)
include({q(MACRO)})
add_library(t STATIC dummy.cpp)
set_target_properties(t PROPERTIES COMPILE_FLAGS "-DA=1 -DB=2")
add_reflection_generator_invocation(INPUT_FILES in.h GENERATORS json OUTPUT_LISTS L CLANG_OPTIONS_FROM_TARGETS t)
add_custom_target(genall DEPENDS ${{L}})
""")
    rc, out, err = B.run(["cmake", "-S", root, "-B", root + "/b", "-DCMAKE_CXX_COMPILER_WORKS=1", "-DREFLECTION_GENERATOR_EXECUTABLE=" + root + "/stub", "-DREFLECTION_GENERATOR_CLANG_RESOURCE_DIR=" + root], timeout=200)
    if rc == 0:
        rc, out, err = B.run(["cmake", "--build", root + "/b", "--target", "genall"], timeout=200)
    if rc != 0:
        c.violation("flags-build", (out + err)[-2000:], unit=unit)
        return
    c.evals += 1
    with open(root + "/log") as f:
        args, _ = parse_args(eval(f.readline(), {})[1])
    flat = [x for a in (args or {}).get("--clang-opt", []) for x in a.split(";") if x]
    if "-DA=1 -DB=2" in flat:
        c.violation("compile-flags-not-split", "COMPILE_FLAGS \"-DA=1 -DB=2\" is passed as one argument", unit=unit)
    elif "-DA=1" not in flat or "-DB=2" not in flat:
        c.violation("compile-flags", "COMPILE_FLAGS \"-DA=1 -DB=2\" of target leads to %r" % flat, unit=unit)


def check(c):
    if c is None:
        return Check("C22", "exploration", "random CMake projects (both generators, subdirectories, targets with all kinds of properties) x build histories with a recording stub; one evaluation = one macro invocation, build or "
                     "recorded generator run compared with the model of the request, plus projects using the real generator")
    n = c.scale(40, 400)
    c.required = {"generator invocations observed": n * 4, "builds: failing generator": n // 2, "targets used": n // 2, "builds with real generator": 6, "output lists": n // 2}
    gen = []

    def job(i):
        if i == "real":
            real(c, c.generator())
        elif i == "flags":
            probe_flags(c)
        else:
            project(c, i)
    c.guarded(job, ["real", "flags"] + list(range(n)))
    c.coverage["cmake"] = B.run(["cmake", "--version"])[1].split("\n")[0]
