import re

from .. import build as B
from ..driver import Check
from ..progs import Prog, T


class TwinProg(Prog):
    """A program with every (flat) class being defined for the code generator and via Boost.Hana."""

    def fill(self, share, nshares, extra):
        r = self.r
        s0 = self.new_struct(ns=[])
        for t in self.scalars:
            self.add(s0, t)
        # types used by both twins showing whether the version is passed on
        self.common = []
        for name, version in (("Marked", 0), ("Versioned", 4)):
            m = self.new_struct(ns=["common"], name=name)
            asof = until = 0
            for k in range(6):
                if k:
                    asof, until = m.mark(k, r.choice(["asof", "until"]), r.randrange(1, 5), asof, until)
                x = self.add(m, self.scalar())
                x["asof"], x["until"] = asof, until
            self.common.append(m)
        self.open = None
        types = [t for i, t in enumerate(self.pair_cover()) if i % nshares == share] + [self.rand_type(3) for _ in range(extra)]
        r.shuffle(types)
        while types:
            chunk, types = types[:5], types[5:]
            self.open = None
            s = self.new_struct()
            for t in chunk:
                self.add(s, t)
        types = [self.struct_type(m) for m in self.common] + [T(f"std::vector<::{self.common[0].qual}>", "seq"), T(f"std::map<std::string, ::{self.common[0].qual}>", "map"), T(f"std::optional<::{self.common[1].qual}>", "opt")]
        self.open = None
        s = self.new_struct()
        for t in types:
            self.add(s, t)
        rec = self.new_struct(ns=[], name="Tree")
        self.add(rec, self.scalar(), name="value")
        self.add(rec, T("std::vector<::" + rec.qual + ">", "seq"), name="children")
        self.add(rec, T("std::unique_ptr<::" + rec.qual + ">", "uptr", copy=False), name="next")
        rec.copy = False
        self.open = None
        one = self.new_struct(ns=["one"])
        self.add(one, self.rand_type(1))
        return self

    def twin(self, text):
        for s in self.structs:
            if s in self.common:
                continue
            text = re.sub(r"::" + re.escape(s.qual) + r"\b", "::h" + s.qual, text)
        return text

    def files(self):
        # Hana twins: same name in another namespace; half of them intrusive, half adapted
        o = ["#pragma once", '#include "types.h"', "#include <reflective_rapidjson/json/reflector-boosthana.h>", "#include <reflective_rapidjson/binary/reflector-boosthana.h>"]
        d = ["#pragma once", '#include "desc.h"']
        for i, s in enumerate(self.structs):
            if s in self.common:
                continue
            ns = ["h" + s.ns[0]] + s.ns[1:]
            q = "::" + "::".join(ns + [s.name])
            bases = f"public ReflectiveRapidJSON::JsonSerializable<{s.name}>, public ReflectiveRapidJSON::BinarySerializable<{s.name}>"
            o += ["namespace " + "::".join(ns) + " {"]
            init = lambda m: "" if m["init"] == "{}" else m["init"]
            if i % 2 or s.name == "Tree":
                o.append(f"struct {s.name} : {bases} {{")
                o += [f"    {self.twin(m['t'].cpp)} {m['name']}{{}};" if m["init"] == "{}" else f"    {self.twin(m['t'].cpp)} {m['name']} = {m['init']};" for m in s.members]
                o += ["};", "}", f"BOOST_HANA_ADAPT_STRUCT({q[2:]}, {', '.join(m['name'] for m in s.members)});"]
            else:
                o += [f"using T{s.name}_{k} = {self.twin(m['t'].cpp)};" for k, m in enumerate(s.members)]
                ini = ", ".join(f"{m['name']}({m['init']})" if m["init"][0] != "{" else f"{m['name']}{m['init']}" for m in s.members)
                o += [f"struct {s.name} : {bases} {{", f"    {s.name}() : {ini} {{}}", f"    BOOST_HANA_DEFINE_STRUCT({s.name}, " + ", ".join(f"(T{s.name}_{k}, {m['name']})" for k, m in enumerate(s.members)) + ");", "};", "}"]
            s.hana = True
            text = self.struct_desc(s)
            s.hana = False
            d.append(self.twin(text))
        return {"twin.h": "\n".join(o) + "\n", "twindesc.h": "\n".join(d) + "\n"}

    def main(self, check, top_level=(), extra=()):
        o = ['#include "vh/main.h"', '#include "twin.h"', '#include "refl.h"', '#include "vh/refjson.h"', '#include "twindesc.h"', f'#include "checks/{check}.h"', "static void run() {"]
        o += [f"    vhcheck::twins<::{s.qual}, ::h{s.qual}>(\"{s.qual}\");" for s in self.structs if s not in self.common]
        o += ["}", "int main(int argc, char **argv) { return vh::harnessMain(argc, argv, run); }"]
        return "\n".join(o) + "\n"


def check(c):
    if c is None:
        return Check("C16", "exploration", "Random class definitions made twice: for the code generator and via BOOST_HANA_DEFINE_STRUCT/BOOST_HANA_ADAPT_STRUCT; the same random values, mutated documents, bytes and corrupted bytes go "
                     "through both; JSON text, bytes, resulting values, consumed bytes, errors (except record) and exceptions have to be the same. Non-trivial: class has content; distinct by (class, data).")
    c.required = {"values without shared pointers": 500, "values with shared pointers": 500, "values serialized": 2000, "values with version": 1000, "documents": 2000, "documents with errors": 1000, "fatal errors thrown": 200, "bytes read": 2000, "corrupted bytes": 2000, "corrupted bytes rejected": 500}
    c.min_evals = 5000
    n = c.scale(6, 20)
    gen = c.generator()
    progs = [TwinProg(c.seed * 1000 + 700 + i, "both", i).fill(i % n, n, c.scale(5, 10)) for i in range(n)]
    c.run_programs(gen, progs, "c16", c.scale(45, 1500), ["json", "binary"])
