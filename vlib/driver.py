"""Common driver of all checks: run units, collect observations, match known findings, write evidence, verdict."""
import zlib
import json
import os
import re
import shutil
import sys
import time
import traceback

from . import build as B

VERIF = B.VERIF
SANITIZER = re.compile(r"(WARNING|ERROR): (Address|Thread|Leak|UndefinedBehavior)Sanitizer|Sanitizer:DEADLYSIGNAL|: runtime error: ")
KNOWN = VERIF + "/known_findings.txt"


class Check:
    def __init__(self, prop, level, rule):
        self.prop, self.level, self.rule = prop, level, rule
        self.locales = True  # whether programs are also run with another global C++ locale
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.start = time.time()
        self.out = f"{VERIF}/out/{prop}" + os.environ.get("VERIF_OUT_SUFFIX", "")
        self.evals = 0
        self.distinct = 0
        self.samples, self.counters, self.violations, self.assumptions = [], {}, [], []
        self.coverage = {}
        self.replay = None
        self.inconclusive = []
        self.min_evals = 1
        self.required = {}  # counters which must have been observed

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, msg):
        print(f"[{self.prop} {time.time() - self.start:6.1f}s] {msg}", flush=True)

    def violation(self, key, message, **where):
        self.violations.append(dict(key=key, message=message, **where))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, text, limit=8):
        if len(self.samples) < limit:
            self.samples.append(text[:600])

    def prepare(self):
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)

    # --- running harness executables --------------------------------------------------------------------------------
    def run_exe(self, exe, unit, cases, what=None, case=None, timeout=None, cpu=None, extra=(), extra_env=None, crash_key="crash"):
        """Runs a harness executable and merges its report."""
        timeout = timeout or self.scale(200, 900)
        cpu = cpu or self.scale(100, 600)
        rep = exe + ".json"
        if self.replay:
            if self.replay.get("unit") != unit:
                return
            what, case = self.replay.get("what"), self.replay.get("case")
        cmd = [exe, "--seed", str(self.seed), "--cases", str(cases), "--out", rep, "--thorough", "1" if self.thorough else "0"]
        if what:
            cmd += ["--what", what]
        if case:
            cmd += ["--case", str(case)]
        cmd += list(extra)
        # run in different environments: time zones and locales (see harnessMain())
        h = zlib.crc32(unit.encode())
        extra_env = {"TZ": ("UTC", "ABC3:30DEF", "XYZ-5:45", "NNN-13")[h % 4], "VH_LOCALE": str(h // 4 % 2 if self.locales else 0), **(extra_env or {})}
        self.count("runs in time zone " + extra_env["TZ"])
        self.count("runs in locale " + ("classic", "custom")[int(extra_env["VH_LOCALE"])])
        res = None
        for attempt in (1, 2):
            try:
                os.unlink(rep)
            except OSError:
                pass
            stuck = res is not None and B.STUCK in res[2]
            res = B.run(cmd, timeout=timeout * (1 if stuck else attempt), cpu=cpu * attempt, extra_env=extra_env)
            if res[0] is None and SANITIZER.search(res[2]):
                break  # stuck while dying
            # wall clock timeout or CPU limit => try once more with more time before calling it a hang
            if res[0] is not None and res[0] not in (-24, -9):
                break
        rc, out, err = res
        data = None
        try:
            with open(rep) as f:
                data = json.load(f)
        except (OSError, ValueError):
            pass
        if rc is None or rc in (-24, -9):
            if rc is None and SANITIZER.search(err):
                self.violation(crash_key, f"{unit}: {summary(err)}\n" + tail(err), unit=unit)
            elif rc is None and stuck and B.STUCK in err:
                self.violation("hang", f"{unit}: no progress within time limit twice (deadlock?) " + err[-1500:], unit=unit)
            elif rc is None:
                self.inconclusive.append(f"{unit}: no result within time limit")
            else:
                self.violation("hang", f"{unit}: CPU time limit exceeded twice (endless loop?) " + err[-1500:], unit=unit)
            return
        if data is None:
            self.violation(crash_key, f"{unit}: died with exit code {rc} without report\n" + tail(err), unit=unit)
            return
        self.evals += data["evals"]
        self.distinct += data["distinct"]
        for k, v in data["counters"].items():
            self.count(k, v)
        for s in data["samples"]:
            self.sample(s)
        for v in data["violations"]:
            self.violation(v["key"], v["message"], unit=unit, what=v["what"], case=v["case"])
        if data["crashed"] or rc not in (0, 1):
            if data["violations"] and rc == 1:
                return
            self.violation(crash_key, f"{unit}: {summary(err)} (exit code {rc}) while processing {data['what']} case {data['case']}: {data['detail'][:1500]}\n" + tail(err),
                           unit=unit, what=data["what"], case=data["case"])

    # --- programs ----------------------------------------------------------------------------------------------------
    def run_programs(self, gen, progs, header, cases, generators, san="asan", top=None, main=None, extra_flags=(), on_unit=None, extra=None, enormous=()):
        """Generates reflection code for programs, compiles them with the check header and runs them."""
        def job(ip):
            i, p = ip
            if self.replay and self.replay.get("unit") not in (None, f"unit{i}"):
                return
            d = f"{self.out}/unit{i}"
            B.write(d + "/types.h", p.header())
            B.write(d + "/desc.h", p.desc())
            for name, text in (p.files() if hasattr(p, "files") else {}).items():
                B.write(d + "/" + name, text)
            B.write(d + "/main.cpp", main(p) if main else p.main(header, top(p) if top else (), (extra(i) if extra else []) + [f'vh::enormously([] {{ vhcheck::top<{t}>("enormous {t}"); }});' for t in enormous[i::len(progs)]]))
            B.run_generator(gen, d + "/types.h", d + "/refl.h", generators)
            flavour, cxx, flags = B.flavour(i, self.thorough, san)
            B.compile_or_fail(d, d + "/main.cpp", d + "/main.o", flags + ["-I" + d] + list(extra_flags), cxx=cxx)
            B.link([d + "/main.o"], d + "/main", san, cxx=cxx)
            self.count("programs_" + flavour)
            self.run_exe(d + "/main", f"unit{i}", cases)
            if on_unit:
                on_unit(i, p, d)
        self.guarded(job, list(enumerate(progs)))
        self.coverage["programs"] = self.coverage.get("programs", 0) + len(progs)
        self.coverage["classes"] = self.coverage.get("classes", 0) + sum(len(p.structs) for p in progs)

    def guarded(self, job, items, jobs=None):
        """Runs jobs in parallel; build failures become violations."""
        def f(x):
            try:
                return job(x)
            except B.Failure as e:
                self.violation(e.key, e.message)
        return B.pool(f, items, jobs)

    def generator(self, san=False):
        self.note("building generator")
        return B.build_generator(self.out, san)

    # --- verdict -----------------------------------------------------------------------------------------------------
    def known(self):
        res = {}
        try:
            with open(KNOWN) as f:
                for line in f:
                    m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
                    if m and m.group(1) == self.prop:
                        res[m.group(2)] = m.group(3)
        except OSError:
            pass
        return res

    def finish(self):
        known = self.known()
        unknown = [v for v in self.violations if v["key"] not in known]
        for k, text in known.items():
            if any(v["key"] == k for v in self.violations):
                print(f"KNOWN-FINDING: property={self.prop} {text}")
        for name, n in self.required.items():
            if self.counters.get(name, 0) < n and not unknown and not self.replay:
                self.inconclusive.append(f"observed only {self.counters.get(name, 0)} times {name} (need {n})")
        if self.evals < self.min_evals and not unknown:
            self.inconclusive.append(f"only {self.evals} evaluations")
        cov = dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=self.rule, samples=self.samples or ["(none)"], observed=self.counters)
        cov.update(self.coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.start, 2), violations=len(unknown))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        if not self.replay:
            with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
                json.dump(ev, f, indent=1)
        self.note(f"{self.evals} evaluations, {self.distinct} distinct, {len(unknown)} violations; observed {json.dumps(self.counters)}")
        if unknown:
            seen = set()
            for i, v in enumerate(unknown):
                path = f"{self.out}/replay-{i}.json"
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, how=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 {VERIF}/check.py {self.prop} --replay {path}", **v), f, indent=1)
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                if len(seen) <= 8:
                    print(f"--- {v['key']}: {v['message'][:2500]}")
                    print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.inconclusive:
            for m in self.inconclusive:
                print(f"INCONCLUSIVE property={self.prop}: {m}")
            return 2
        return 0


def summary(err):
    m = re.search(r"(SUMMARY: .*|runtime error: .*|WARNING: ThreadSanitizer.*|terminate called.*)", err)
    return m.group(1) if m else "crashed"


def tail(err, n=4000):
    i = err.find("ERROR: ")
    j = err.find("runtime error")
    k = min([x for x in (i, j) if x >= 0] or [max(0, len(err) - n)])
    return err[max(0, k - 200):k + n]


def main(prop, fn):
    """fn(check) performs the check."""
    chk = None
    try:
        chk = fn(None)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as f:
                chk.replay = json.load(f)
            chk.seed, chk.tier = chk.replay["seed"], chk.replay["tier"]
            chk.thorough = chk.tier == "thorough"
            chk.out += "-replay"
        chk.prepare()
        try:
            fn(chk)
        except B.Failure as e:
            chk.violation(e.key, e.message)
        rc = chk.finish()
    except B.Broken as e:
        print("BROKEN: " + str(e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    # keep replays but drop bulky build products
    if chk and not os.environ.get("VERIF_KEEP"):
        clean(chk.out)
    sys.stdout.flush()
    os._exit(rc)


def clean(d):
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if not (f.startswith("replay") or f.endswith((".h", ".cpp"))):
                try:
                    os.unlink(p)
                except OSError:
                    pass
