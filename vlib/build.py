"""Building and running things from /repo's current working tree."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import resource
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "clang++"
RESDIR = "/usr/lib/llvm-18/lib/clang/18"
INC = ["-I" + REPO + "/lib/include", "-isystem", "/usr/include/martchus-c++utilities"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
       "-fsanitize-ignorelist=" + VERIF + "/harness/ubsan.ignore", "-ftrivial-auto-var-init=pattern"]
CONFIG_H = """#define PROJECT_NAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME "reflective_rapidjson_generator"
#define PROJECT_VARNAME_UPPER "REFLECTIVE_RAPIDJSON_GENERATOR"
#define PROJECT_LICENSE "MIT license"
#define PROJECT_CONFIG_SUFFIX ""
#define PROJECT_CONFIG_NAME "reflective_rapidjson_generator"
#define APP_NAME "Reflection for RapidJSON"
#define APP_VERSION "0.0.17"
#define APP_MAJOR_VERSION 0
#define APP_MINOR_VERSION 0
#define APP_PATCH_VERSION 17
#define APP_AUTHOR "Martchus"
#define APP_CREDITS ""
#define APP_URL "https://github.com/Martchus/reflective-rapidjson"
#define APP_DOMAIN ""
#define APP_DESCRIPTION "Provides serialization and deserialization of C++ objects to and from JSON"
#define APP_INSTALL_PREFIX "/usr/local"
#define APP_DATA_DIR ""
#define DEPENCENCY_VERSIONS { "C++ Utilities: 5.24.5"}
#define CPP_UTILITIES_INCLUDE_DIRS "/usr/include/martchus-c++utilities"
#define RAPIDJSON_INCLUDE_DIRS ""
#define REFLECTION_GENERATOR_CLANG_RESOURCE_DIR "/usr/lib/llvm-18/lib/clang/18"
"""


class Failure(Exception):
    """The tree under test does not allow to build what has to be buildable (=> violation)."""

    def __init__(self, key, message):
        super().__init__(message)
        self.key, self.message = key, message


class Broken(Exception):
    """The check itself cannot work (toolchain problem, ...) => neither pass nor violation."""


def env():
    e = dict(os.environ)
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", ENABLE_ESCAPE_CODES="0",
             ASAN_OPTIONS="abort_on_error=0:exitcode=97:detect_leaks=1:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=1:quarantine_size_mb=64:handle_abort=1:allow_user_segv_handler=0",
             UBSAN_OPTIONS="print_stacktrace=1:exitcode=97:halt_on_error=1", TSAN_OPTIONS="exitcode=97:halt_on_error=1:second_deadlock_stack=1")
    e.pop("VERBOSE", None)
    return e


def run(cmd, cwd=None, timeout=600, stdin=None, cpu=None, extra_env=None, mem=None):
    e = env()
    if extra_env:
        e.update(extra_env)

    def limits():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    for attempt in range(20):
        try:
            return _run(cmd, cwd, timeout, stdin, e, limits)
        except OSError as ex:
            if ex.errno != 26 or attempt == 19:  # text file busy due to fd briefly inherited by other child
                raise
            time.sleep(.2)


def _run(cmd, cwd, timeout, stdin, e, limits):
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=limits)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        before = cpu_ticks(p.pid)
        time.sleep(5)
        stuck = before is not None and cpu_ticks(p.pid) == before
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace") + ("\n" + STUCK if stuck else "")


STUCK = "[no CPU time consumed anymore when the time limit was reached]"


def cpu_ticks(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return sum(int(x) for x in f.read().rsplit(")", 1)[1].split()[11:15])
    except (OSError, ValueError, IndexError):
        return None


def pool(fn, items, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def toolchain_sane(d):
    """Whether the compiler works on something unrelated to /repo."""
    write(d + "/sane.cpp", "#include <rapidjson/document.h>\n#include <c++utilities/io/binaryreader.h>\n#include <string>\nint main() { return std::string().size(); }\n")
    rc, _, err = run([CXX, "-std=gnu++17", "-isystem", "/usr/include/martchus-c++utilities", "-fsyntax-only", d + "/sane.cpp"], timeout=300)
    return rc == 0


def errors_of(text, n=12):
    lines = [l for l in text.splitlines() if "error" in l or "undefined reference" in l or "note: in instantiation" in l]
    return "\n".join((lines or text.splitlines())[:n])


def compile_cpp(src, obj, flags, timeout=800, cxx=CXX):
    rc, out, err = run([cxx] + flags + ["-c", src, "-o", obj], timeout=timeout)
    return rc, out + err


def compile_or_fail(d, src, obj, flags, key="compile", cxx=CXX):
    rc, msg = compile_cpp(src, obj, flags, cxx=cxx)
    if rc == 0:
        return
    if rc is None:
        raise Broken("compiling %s timed out" % src)
    if not toolchain_sane(d):
        raise Broken("toolchain does not work: " + msg[:2000])
    raise Failure(key, "code using the library does not compile: %s\n%s" % (src, errors_of(msg)))


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_generator(d, san=False):
    """Builds the code generator from /repo/generator; returns path of executable."""
    g = d + "/gen"
    os.makedirs(g, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/generator/*.cpp"))
    cache = os.environ.get("VERIF_CACHE")
    key = None
    if cache:
        files = srcs + glob.glob(REPO + "/generator/*.h") + glob.glob(REPO + "/lib/*.h") + glob.glob(REPO + "/lib/*/*.h")
        key = os.path.join(cache, "gen-%s-%d" % (tree_hash(files), san))
        if os.path.exists(key):
            shutil.copy2(key, g + "/generator")
            return g + "/generator"
    write(g + "/inc/resources/config.h", CONFIG_H)
    flags = ["-std=gnu++17", "-O0", "-w", "-fvisibility=hidden", "-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER", "-DCPP_UTILITIES_USE_STANDARD_FILESYSTEM",
             "-DREFLECTIVE_RAPIDJSON_STATIC", "-I" + REPO + "/generator", "-I" + g + "/inc"] + INC + ["-isystem", "/usr/lib/llvm-18/include"]
    if san:
        flags += ["-g1"] + SAN
    else:
        pass
    jobs = [(s, g + "/" + os.path.basename(s)[:-4] + ".o") for s in srcs]
    pool(lambda j: compile_or_fail(d, j[0], j[1], flags, "generator-build"), jobs)
    link = [CXX] + (SAN if san else []) + [j[1] for j in jobs] + ["-o", g + "/generator", "-lmartchus-c++utilities", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                                              "/usr/lib/llvm-18/lib/libLLVM.so.1", "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    rc, out, err = run(link, timeout=600)
    if rc != 0:
        if not toolchain_sane(d):
            raise Broken("toolchain does not work")
        raise Failure("generator-build", "linking the generator failed: " + errors_of(out + err))
    if key:
        os.makedirs(cache, exist_ok=True)
        shutil.copy2(g + "/generator", key + ".tmp%d" % os.getpid())
        os.replace(key + ".tmp%d" % os.getpid(), key)
    return g + "/generator"


def generator_args(gen, src, out, generators=("json", "binary"), extra=()):
    return [gen, "--input-file", src] + (["--output-file", out] if out else []) + ["--generators"] + list(generators) + list(extra) + [
        "--clang-opt", "-std=c++17", "-I" + REPO + "/lib/include", "-I/usr/include/martchus-c++utilities", "-resource-dir", RESDIR]


def run_generator(gen, src, out, generators=("json", "binary"), extra=()):
    cmd = generator_args(gen, src, out, generators, extra)
    rc, o, e = run(cmd, timeout=300)
    if rc is None:
        rc, o, e = run(cmd, timeout=600)
    if rc != 0:
        raise Failure("generator-run", "generator fails with exit code %s on valid input %s:\n%s" % (rc, src, (o + e)[-3000:]))


HARNESS_FLAGS = ["-std=gnu++17", "-O0", "-g1", "-w", "-I" + VERIF + "/harness", "-ferror-limit=5", "-ftemplate-backtrace-limit=0"]


def harness_flags(san="asan"):
    f = HARNESS_FLAGS + INC
    if san == "asan":
        f = f + SAN
    elif san == "tsan":
        f = f + ["-fsanitize=thread"]
    return f


def flavour(i, thorough, san="asan"):
    """How to compile the program with index i: (name, compiler, flags). Compilers and language versions differ in e.g. evaluation order and optimization."""
    f = harness_flags(san)
    if i % 4 == 1:
        return "gnu++20", CXX, ["-std=gnu++20" if x == "-std=gnu++17" else x for x in f]
    if thorough and i % 4 == 2 and san == "asan":
        return "gcc", "g++", ["-std=gnu++17", "-O0", "-g1", "-w", "-I" + VERIF + "/harness", "-fsanitize=address"] + INC
    if thorough and i % 4 == 3 and san == "asan":
        return "optimized", CXX, ["-O1" if x == "-O0" else x for x in f]
    return "default", CXX, f


def link(objs, exe, san="asan", libs=(), cxx=CXX):
    s = ["-fsanitize=address"] if cxx != CXX else SAN if san == "asan" else ["-fsanitize=thread"] if san == "tsan" else []
    rc, out, err = run([cxx] + s + objs + ["-o", exe, "-lmartchus-c++utilities", "-lpthread"] + list(libs), timeout=600)
    if rc != 0:
        raise Failure("link", "linking code using the library failed: " + errors_of(out + err))
