"""C15: command line and I/O of the generator."""
import os
import random
import re
import resource
import signal
import subprocess

from .. import build as B
from ..driver import Check, tail

STUB = '''#pragma once
#ifndef STUB_RR
#define STUB_RR
namespace std { template <class T> class vector { T *d; }; class string { char *d; }; }
namespace ReflectiveRapidJSON {
template <class T> struct JsonSerializable { static constexpr const char *qualifiedName = "x"; };
template <class T, unsigned long V = 0> struct BinarySerializable { static constexpr unsigned long version = V; };
template <class T> struct AdaptedJsonSerializable { static constexpr bool value = false; };
template <class T, unsigned long V = 0> struct AdaptedBinarySerializable { static constexpr bool value = false; static constexpr unsigned long version = V; };
}
#define REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS(T) friend struct Push##T;
#define MAKE_JSON_SERIALIZABLE(T) template <> struct ReflectiveRapidJSON::AdaptedJsonSerializable<T> { static constexpr const char *name = "AdaptedJsonSerializable"; static constexpr const char *qualifiedName = #T; static constexpr bool value = true; }
#define MAKE_BINARY_SERIALIZABLE(T) template <> struct ReflectiveRapidJSON::AdaptedBinarySerializable<T> { static constexpr const char *name = "AdaptedBinarySerializable"; static constexpr const char *qualifiedName = #T; static constexpr bool value = true; static constexpr unsigned long version = 0; }
#endif
'''
TYPES = ["int", "bool", "double", "std::string", "std::vector<int>", "std::vector<std::string>", "const int", "static int", "unsigned char", "const char *"]


class Input:
    """A valid header with some classes which depend on macros."""

    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.macros, self.classes, o = [], [], []
        n = r.choice([1, 2, 3, 5, 8, 30])
        names = []
        for i in range(n):
            name = f"K{i}x{r.randrange(1000)}"
            ns = r.choice(["", "", "ns", "a::b"])
            bases = []
            marks = r.choice([(1, 1)] * 4 + [(1, 0), (0, 1), (0, 0)])
            if marks[0]:
                bases.append(f"public ReflectiveRapidJSON::JsonSerializable<{name}>")
            if marks[1]:
                bases.append(f"public ReflectiveRapidJSON::BinarySerializable<{name}{r.choice(['', '', ', 3'])}>")
            plain = [x for x in names if not x[2]]
            if plain and r.random() < .4:
                bases.append("public ::" + r.choice(plain)[0])
            body = []
            for j in range(r.choice([0, 1, 3, 6, 25])):
                t = r.choice(TYPES)
                body.append(f"    {t} m{j}{' = 0' if t == 'const int' else ''};")
                if r.random() < .08:
                    body.append(r.choice(["public:", "private:", "    void f%d() {}" % j, "    // as_of_version(2)", "    /* comment */"]))
            macro = f"OPT_{i}" if r.random() < .3 else None
            text = [f"struct {name}{' : ' + ', '.join(bases) if bases else ''} {{"] + body + ["};"]
            if ns:
                text = [f"namespace {x} {{" for x in ns.split("::")] + text + ["}"] * len(ns.split("::"))
            q = (ns + "::" if ns else "") + name
            if not any(marks) and r.random() < .4:
                text.append(f"MAKE_JSON_SERIALIZABLE({q});")
                marks = (1, 0)
            if macro:
                text = [f"#ifdef {macro}"] + text + ["#endif"]
                self.macros.append(macro)
            self.classes.append((name, marks, macro))
            names.append((q, marks, macro))
            o += text
            if r.random() < .2:
                o += [r.choice([f"inline int fn{i}() {{ return {i}; }}", f"enum class E{i} {{ a, b, c }};", f"template <class T> struct T{i} {{ T t; }};", f"struct Fwd{i};", "// ünïcode 😀"])]
        self.lines = o
        self.text = STUB + "\n".join(o) + "\n"


def limited(fsize=None):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (120, 125))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    return f


def check(c):
    if c is None:
        return Check("C15", "fault_enumeration", "The real generator (ASan/UBSan) run on random valid headers with all combinations of output destination, paths, generators and clang options (outputs compared with each other); on "
                     "mutated headers (exit code compared with Clang's own verdict on the same file); and with faults: missing/unreadable/garbage input, unknown generators and options, unopenable outputs, /dev/full, closed "
                     "stdout, broken pipe and file size limits at random and boundary bytes of the output. Evaluations: runs; non-trivial: all; distinct by (input, arguments, fault).")
    c.min_evals = 300
    c.required = {"successful runs": 100, "failed runs": 100, "output faults": 60, "size limit cut the output": 30, "size limit did not cut the output": 8, "inputs broken": 40, "mutated inputs still valid": 10,
                  "error resilient with semantic error": 8, "unknown generator": 10, "compared with reference output": 80}
    gen = c.generator(san=True)
    env = B.env()
    env["ASAN_OPTIONS"] += ":detect_leaks=0"
    base_opts = ["-std=c++17", "-resource-dir", B.RESDIR]

    def run(unit, args, cwd, stdout=None, fsize=None, env_extra=None):
        """Runs the generator; returns (rc, stdout bytes, stderr text); rc is None if it crashed (already reported)."""
        c.evals += 1
        c.distinct += 1
        for attempt in (1, 2):
            p = subprocess.Popen([gen] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=limited(fsize))
            try:
                out, err = p.communicate(timeout=120)
                break
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
        else:
            c.violation("hang", f"{unit}: generator {' '.join(args)} does not terminate", unit=unit)
            return None, b"", ""
        err = err.decode("utf-8", "replace")
        rc = p.returncode
        if rc < 0 or rc in (97, 134, 139) or "Sanitizer" in err or "runtime error:" in err or "PLEASE submit a bug report" in err:
            c.violation("crash", f"{unit}: generator {' '.join(args)} crashes with {rc}: {tail(err)}", unit=unit)
            return None, out or b"", err
        c.count("successful runs" if rc == 0 else "failed runs")
        return rc, out or b"", err

    def expect(unit, res, ok, what):
        rc, out, err = res
        if rc is None:
            return False
        if ok and rc != 0:
            c.violation("failure", f"{unit}: exit code {rc} on valid invocation ({what}): {err[-1500:]}", unit=unit)
            return False
        if not ok and rc == 0:
            c.violation("false-success", f"{unit}: exit code is zero despite {what}", unit=unit)
            return False
        if not ok and not err.strip():
            c.violation("silent-failure", f"{unit}: nothing printed on stderr despite {what}", unit=unit)
        return True

    def lines(b):
        return sorted(l for l in b.decode("utf-8", "replace").splitlines() if l.strip())

    def job(i):
        unit = f"input{i}"
        if c.replay and c.replay.get("unit") not in (None, unit):
            return
        r = random.Random(c.seed * 100003 + i)
        inp = Input(c.seed * 1000 + i)
        d = f"{c.out}/{unit}"
        sub = r.choice(["in", "in put", "inö", "a/b/c", "we'ird"])
        src = f"{d}/{sub}/types.h"
        B.write(src, inp.text)
        rel = os.path.relpath(src, d)
        macros = [m for m in inp.macros if r.random() < .5]
        copts = base_opts + ["-D" + m for m in macros]

        def args(gens=("json", "binary"), src=src, out=None, opts=copts, extra=()):
            a = [["--input-file", src]]
            if out:
                a.append(["--output-file", out])
            if gens is not None:
                a.append(["--generators"] + list(gens))
            a.append(["--clang-opt"] + list(opts))
            a += [[x] for x in extra]
            r.shuffle(a)
            return [x for l in a for x in l]

        # reference output for each generator; relevant classes must occur
        ref = {}
        for g in ("json", "binary"):
            res = run(unit, args([g]), d)
            if not expect(unit, res, True, f"generator {g}, output on stdout"):
                return
            ref[g] = res[1]
            for name, marks, macro in inp.classes:
                expected = marks[g == "binary"] and (not macro or macro in macros)
                got = bool(re.search(r"\b%s\b" % name, ref[g].decode("utf-8", "replace")))
                if expected and not got:
                    c.violation("incomplete", f"{unit}: exit code is zero but there's no code for class {name} ({g}, macros {macros})", unit=unit)
                elif got and macro and macro not in macros:
                    c.violation("clang-opt", f"{unit}: there's code for class {name} although {macro} has not been passed via --clang-opt", unit=unit)

        def compare(out, gens, what):
            c.count("compared with reference output")
            if not gens:
                gens = ["json"] if lines(out) == lines(ref["json"]) else ["json", "binary"]  # default: documented as all but is JSON only
            want = b"".join(ref[g] for g in gens)
            same = out == want if len(gens) == 1 else lines(out) == lines(want)
            if not same:
                c.violation("output", f"{unit}: output differs from output of invoking each generator with output on stdout ({what})\n{out[:1500]}\n--- expected:\n{want[:1500]}", unit=unit)

        # equivalent invocations
        for _ in range(c.scale(5, 12)):
            gens = r.choice([["json"], ["binary"], ["json", "binary"], ["binary", "json"], None])
            s = r.choice([src, rel, "./" + rel, f"{d}/../{unit}/{rel}"])
            out = r.choice([None, "out.h", f"{d}/out put.h", "./ö.h", "o/../out2.h"])
            os.makedirs(d + "/o", exist_ok=True)
            opts = list(base_opts)
            ds = ["-D" + m for m in macros] + ["-DUNUSED=1"]
            x = r.randrange(5)
            if x == 0:
                opts = [";".join(opts + ds)]
            elif x == 1:
                opts = [";".join(ds + [""])] + opts
            elif x == 2:
                opts = opts + [";" + ";;".join(ds)]
            elif x == 3:
                opts = [opts[0] + ";" + ds[0]] + opts[1:] + ds[1:]
            else:
                opts = opts + ds
            extra = [e for e in ("--log-clang-opt", "--error-resilient") if r.random() < .2]
            full = os.path.join(d, out) if out else None
            pre = r.random()
            if full and pre < .6:
                with open(full, "wb") as f:
                    f.write(b"old content\n" * r.choice([0, 1, 10000]))
            elif full and os.path.exists(full):
                os.unlink(full)
            a = args(gens, s, out, opts, extra)
            what = " ".join(a)
            if out or r.random() < .5:
                res = run(unit, a, d)
                data = res[1]
            else:  # file as stdout
                with open(d + "/stdout", "wb") as f:
                    res = run(unit, a, d, stdout=f)
                with open(d + "/stdout", "rb") as f:
                    data = f.read()
            if not expect(unit, res, True, what):
                continue
            if out:
                if res[1]:
                    c.violation("output", f"{unit}: something is printed on stdout despite output file: {res[1][:500]}", unit=unit)
                try:
                    with open(full, "rb") as f:
                        data = f.read()
                except OSError as ex:
                    c.violation("output", f"{unit}: exit code is zero but output file cannot be read: {ex} ({what})", unit=unit)
                    continue
            compare(data, gens, what)
            if "--log-clang-opt" in extra:
                for o in ds + ["-std=c++17"]:
                    if o not in res[2].split():
                        c.violation("log", f"{unit}: {o} is not logged: {res[2][:500]}", unit=unit)

        # output faults
        both = ref["json"] + ref["binary"]
        n = len(both)
        for _ in range(c.scale(5, 14)):
            x = r.randrange(7)
            if x <= 3:
                limit = r.choice([0, 1, n - 1, n, n + 1, r.randrange(n + 1), r.randrange(n + 1), min(n, 8191), min(n, 8192), max(0, n - n % 8191), n // 2])
                limit = max(0, limit)
                to_stdout = r.random() < .3
                f = open(d + "/limited.h", "wb") if to_stdout else None
                res = run(unit, args(out=None if to_stdout else "limited.h"), d, stdout=f, fsize=limit)
                if f:
                    f.close()
                with open(d + "/limited.h", "rb") as f:
                    got = f.read()
                cut = limit < n
                c.count("size limit cut the output" if cut else "size limit did not cut the output")
                expect(unit, res, not cut, f"output of {n} bytes being limited to {limit} bytes ({'stdout' if to_stdout else 'file'})")
                if not cut and lines(got) != lines(both):
                    c.violation("output", f"{unit}: exit code is zero but output is incomplete", unit=unit)
            elif x == 4:
                what = r.choice(["missing/dir/out.h", "in-dir", "/dev/full", rel + "/out.h", "dangling"])
                if what == "in-dir":
                    os.makedirs(d + "/in-dir", exist_ok=True)
                elif what == "dangling" and not os.path.lexists(d + "/dangling"):
                    os.symlink(d + "/no/where", d + "/dangling")
                expect(unit, run(unit, args(out=what), d), what == "/dev/full" and n == 0, f"output cannot be written to {what}")
            elif x == 5:
                with open("/dev/full", "wb") as f:
                    res = run(unit, args(), d, stdout=f)
                expect(unit, res, n == 0, "stdout being full")
            else:
                rd, wr = os.pipe()
                os.close(rd)
                res = run(unit, args(), d, stdout=wr)
                os.close(wr)
                expect(unit, res, n == 0, "stdout being a broken pipe")
            c.count("output faults")

        # wrong arguments
        for _ in range(c.scale(2, 5)):
            x = r.randrange(4)
            if x <= 1:
                bad = r.choice(["xml", "Json", "json,binary", "JSON", "binary ", "jso", "all", "\xff"])
                gens = r.choice([[bad], ["json", bad], [bad, "json"], ["binary", "json", bad]])
                c.count("unknown generator")
                expect(unit, run(unit, args(gens), d), False, f"unknown generator in {gens}")
            elif x == 2:
                a = args()
                k = a.index("--input-file")
                del a[k:k + r.choice([1, 2])]
                expect(unit, run(unit, a, d), False, f"missing input file in {' '.join(a)}")
            else:
                expect(unit, run(unit, ["--no-such-option"] + args(), d), False, "unknown option")

        # input faults
        bads = [(f"{d}/missing.h", None), (d, None), (f"{src}/types.h", None)]
        for k in range(c.scale(5, 16)):
            text, kind = mutate(r, inp)
            B.write(f"{d}/mut{k}.h", "")
            with open(f"{d}/mut{k}.h", "wb") as f:
                f.write(text)
            bads.append((f"{d}/mut{k}.h", kind))
        for path, kind in bads:
            if kind is None and r.random() < .6:
                continue
            resilient = r.random() < .4
            opts = copts + (["-Werror"] if r.random() < .1 else [])
            res = run(unit, args(src=path, out=r.choice([None, "mut-out.h"]), opts=opts, extra=["--error-resilient"] if resilient else []), d)
            rc, cout, cerr = B.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else B.CXX, "-x", "c++", "-std=c++14", "-Wno-pragma-once-outside-header", "-fsyntax-only", "-fdiagnostics-show-category=id",
                                    "-DREFLECTIVE_RAPIDJSON_GENERATOR", "-ferror-limit=0"] + opts + [path], cwd=d, timeout=120)
            if rc is None:
                continue
            errs = [l for l in cerr.splitlines() if re.search(r"(fatal )?error:", l)]
            real = [l for l in errs if not re.search(r"[\[,]2\]$", l)]
            with open(path, "rb") if os.path.isfile(path) else open(os.devnull, "rb") as f:
                what = f"input {path} ({kind}): {(errs or [''])[0]} {f.read()[len(STUB.encode()):][:1200]}"
            if rc != 0:
                c.count("inputs broken")
            else:
                c.count("mutated inputs still valid")
            if not resilient or rc == 0 or real:
                expect(unit, res, rc == 0, what)
            else:
                c.count("only semantic errors and error resilient")
        # semantic errors elsewhere are tolerated if requested and code is generated nevertheless
        sem = r.choice(["inline void broken_fn() { undeclared_function(3); }\n", "struct Unrelated { UnknownType x; };\n", "inline int other_fn() { return \"text\"; }\n", "struct Dup {}; struct Dup {};\n"])
        tail_first = r.random() < .5
        text = inp.text.replace("#endif\n", "#endif\n" + sem, 1) if tail_first else inp.text + sem
        B.write(d + "/sem.h", text)
        expect(unit, run(unit, args(src=d + "/sem.h"), d), False, "semantic error " + sem)
        res = run(unit, args(src=d + "/sem.h", extra=["--error-resilient"]), d)
        c.count("error resilient with semantic error")
        if expect(unit, res, True, "semantic error with --error-resilient: " + sem) and lines(res[1]) != lines(both):
            c.violation("output", f"{unit}: code generated despite semantic error ({sem.strip()}) differs when --error-resilient is specified", unit=unit)
        syn = r.choice(["struct Broken {\n", "#include \"does-not-exist.h\"\n", "#error stop\n", "int x = ;\n", "class { ] };\n"])
        parts = [sem, syn]
        r.shuffle(parts)
        B.write(d + "/mixed.h", inp.text + "".join(parts))
        expect(unit, run(unit, args(src=d + "/mixed.h", extra=["--error-resilient"]), d), False, "non-semantic error besides semantic error: " + " ".join(parts))
        c.sample(f"{unit}: {len(inp.classes)} classes, {n} bytes of code, macros {macros}, input {rel}")

    c.guarded(job, range(c.scale(64, 500)))


TOKENS = ["{", "}", ";", "(", ")", "<", ">", "::", ",", "public:", "struct", "template", "int", "static", "const", "friend", "namespace", "#if", "#endif", "#else", '"', "'", "0", "using", "enum", "virtual", "typename", "auto", "\\", "...", "="]


def mutate(r, inp):
    lines = list(inp.lines)
    kind = r.choice(["token", "token", "token", "drop line", "dup line", "truncate", "bytes", "swap", "garbage", "empty", "base", "member"])
    if kind == "garbage":
        return bytes(r.randrange(256) for _ in range(r.choice([1, 10, 1000]))), kind
    if kind == "empty":
        return r.choice([b"", b"\n", b"\xef\xbb\xbf", b"// x"]), kind
    if kind == "drop line":
        for _ in range(r.choice([1, 1, 3])):
            if lines:
                del lines[r.randrange(len(lines))]
    elif kind == "dup line":
        k = r.randrange(len(lines))
        lines.insert(k, lines[k])
    elif kind == "swap":
        a, b = r.randrange(len(lines)), r.randrange(len(lines))
        lines[a], lines[b] = lines[b], lines[a]
    elif kind == "base":
        cand = [k for k, l in enumerate(lines) if l.startswith("struct K")]
        k = r.choice(cand)
        name = lines[k].split()[1]
        lines[k] = f"struct {name} : " + r.choice([f"public ReflectiveRapidJSON::JsonSerializable<Undeclared>", f"public Undeclared, public ReflectiveRapidJSON::JsonSerializable<{name}>",
                                                   f"public ReflectiveRapidJSON::JsonSerializable<>", f"public {name}", f"public ReflectiveRapidJSON::BinarySerializable<{name}, 1 / 0>",
                                                   f"public ReflectiveRapidJSON::BinarySerializable<{name}, undeclared>", f"public ReflectiveRapidJSON::BinarySerializable<{name}, -1>",
                                                   f"public ReflectiveRapidJSON::JsonSerializable<{name}>, public ReflectiveRapidJSON::JsonSerializable<{name}>"]) + " {"
    elif kind == "member":
        cand = [k for k, l in enumerate(lines) if re.match(r"    .* m\d+", l)]
        if cand:
            k = r.choice(cand)
            lines[k] = r.choice(["    Undeclared mX;", "    std::vector<Undeclared> mX;", "    auto mX;", "    void mX;", "    int m0; int m0;", "    int mX[", "    Undeclared::T mX = 3;", "    friend class Undeclared::X;", "    int (*mX)(Undeclared);",
                                 "    int mX : 3;", "    union { int mX; };", "    int &mX;", "    std::vector mX;", "    // until_version(x)\n    int mX;"])
    text = "\n".join(lines) + "\n"
    if kind == "token":
        for _ in range(r.choice([1, 1, 2, 4])):
            toks = list(re.finditer(r"\w+|[^\w\s]|\n", text))
            t = r.choice(toks)
            x = r.randrange(3)
            text = text[:t.start()] + ("" if x == 0 else r.choice(TOKENS) + (" " + t.group() if x == 1 else "")) + text[t.end():]
    data = (STUB + text).encode()
    if kind == "truncate":
        data = data[:r.randrange(len(STUB), len(data) + 1)]
    elif kind == "bytes":
        b = bytearray(data)
        for _ in range(r.choice([1, 5])):
            b[r.randrange(len(STUB), len(b))] = r.randrange(256)
        data = bytes(b)
    return data, kind
