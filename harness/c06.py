"""C06: validity of lines, definitions and tags."""
import docs
from c04 import elif_ok
from core import MC_CFG, Check, S

MAC = ["va", "vb", "vc", "vstr", "vempty", "vlist"]
VAL = {"va": ["0", "1", "2"], "vb": ["0", "1", "10"], "vc": ["%{va}", "1", "%{?va}%{!?va:0}"],
       "vstr": ["abc", "x y"], "vempty": [""], "vlist": ["x86_64 noarch", "i686", "linux x86_64"]}


class C06(Check):
    prop = "C06"
    assumptions = (
        "conditions use literals, macros of the spec or the caller, and rpm's integer/string operators",
        "string results of expressions do not look like numbers (known finding)",
        "macros a condition depends on are not (re)defined below it (known finding)",
    )

    def models(self):
        yield "MC_C06", MC_CFG + f" Size = {5 if self.thorough else 4}\n MaxDepth = 1\n"

    wild = header = False

    def num(self, r, names):
        k = r.randrange(7)
        n = r.choice(names) if names else "vnone"
        if k < 2:
            return str(r.choice([0, 1, 2, 3, 10, 11]))
        if k == 2:
            return "0%{?" + (n if n in ("va", "vb", "vc") else "vnone") + "}"
        if k == 3:
            return "%{?" + n + ":1}%{!?" + n + ":0}"
        if k == 4:
            return "0%{!?" + n + ":1}"
        if k == 5:
            return "(" + self.iexpr(r, names, 1) + ")"
        return "%{" + n + "}" if n in ("va", "vb") else "0%{?" + n + "}" if n == "vc" else "1"

    def iexpr(self, r, names, d):
        """Integer expression rpm accepts."""
        k = r.randrange(7)
        if d == 0 or k < 3:
            return self.num(r, names)
        if k == 3:
            return r.choice(["!", "! "]) + self.num(r, names)
        if k == 4:
            return self.num(r, names) + r.choice([" == ", " != ", " < ", " >= ", "<=", " > "]) + self.num(r, names)
        if k == 5:
            return self.iexpr(r, names, d - 1) + r.choice([" && ", " || ", "||"]) + self.iexpr(r, names, d - 1)
        return self.num(r, names) + r.choice([" + ", " - ", " * "]) + self.num(r, names)

    def expr(self, r, names, d=2):
        k = r.randrange(6 if self.header and "vstr" not in names else 8)
        if self.wild and k == 0:
            return self.iexpr(r, names, 1) + r.choice([" && ", " || ", " * "]) + r.choice(['"a"', "", ")", "x"])
        if k < 6:
            return self.iexpr(r, names, d)
        if k == 6:
            e = '"%{?vstr}"' + r.choice([" == ", " != "]) + r.choice(['"abc"', '""', '"x y"'])
            return e if r.random() < .5 else "(" + e + ")" + r.choice([" && ", " || "]) + self.iexpr(r, names, d)
        return r.choice(['"abc"', '""', '"%{?vstr}"', '"%{?vempty}"'])

    def cond(self, r, kw, names):
        if kw == "%if":
            k = r.choice(["%if", "%if", "%if", "%ifarch", "%ifnarch", "%ifos", "%ifnos"])
        else:
            k = r.choice(["%elif", "%elif", "%elif", "%elifarch", "%elifos"])
        if k.endswith("arch") or k.endswith("os"):
            return k, r.choice(["x86_64", "noarch i686", "x86_64 noarch", "linux", "darwin linux", "i386",
                                "x86_64_v2 x86", "linuxx"]
                               + ([] if self.header and "vlist" not in names else ["x %{?vlist}"])
                               + (["%{vlist}"] if "vlist" in names else []))
        e = self.expr(r, names)
        return k, e

    def block(self, r, names, depth, out, deep):
        """Random well-formed block structure; defines macros in `names' order."""
        for _ in range(r.randint(1, 2 if depth else 4)):
            k = r.randrange(8)
            if k < 3 and depth < deep:
                w, e = self.cond(r, "%if", names)
                self.directive(r, w, e, out)
                self.block(r, names, depth + 1, out, deep)
                for _ in range(r.choice([0, 0, 1, 2])):
                    w, e = self.cond(r, "%elif", names)
                    self.directive(r, w, e, out)
                    self.block(r, names, depth + 1, out, deep)
                if r.random() < .5:
                    out.append(r.choice(["%else", "  %else", "%else "]))
                    self.block(r, names, depth + 1, out, deep)
                out.append(r.choice(["%endif", "%endif  ", " %endif"]))
            elif k < 5:
                self.ntag += 1
                out.append(r.choice(["Provides: p%d", "Requires: r%d", "Source%d: s", "Patch%d: x", "%%{?va:Provides: q%d}"]) % self.ntag)
            elif k == 5:
                self.ntag += 1
                out.extend(x % self.ntag if "%d" in x else x.replace("%%", "%") for x in
                           r.choice([["%%global q%d 1"], ["%%define q%d x"], ["#global q%d 1"], ["%%dnl %%global q%d 1"]] if depth and not self.wild else
                                    [["%%global q%d %%{expand:", "%%if 0", "%%endif", "}"],
                                     ["%%define q%d a\\", "%%if 0\\", "%%else\\", "%%endif"], ["#global q%d 1"], ["%%dnl %%global q%d 1"]]))
            else:
                out.append(r.choice(["# comment", "", "# comment %%{x}"]))

    def directive(self, r, w, e, out):
        parts = e.split(" ")
        if len(parts) > 1 and r.random() < .2:
            k = r.randint(1, len(parts) - 1)
            out.append(w + " " + " ".join(parts[:k]) + " \\")
            if k < len(parts) - 1 and r.random() < .6:
                j = r.randint(k + 1, len(parts) - 1)
                out.append(" ".join(parts[k:j]) + " \\")
                k = j
            out.append(" ".join(parts[k:]))
        else:
            out.append(r.choice(["", "", "  "]) + w + r.choice([" ", "  "]) + e + r.choice(["", "", " "]))

    def cases(self):
        import rpm
        cpu, os_ = rpm.expandMacro("%{_target_cpu}"), rpm.expandMacro("%{_target_os}")
        r = self.rng
        n = 6000 if self.thorough else 1200
        self.wild = True
        for k in range(n):
            names = [m for m in MAC if r.random() < .6]
            macros = [[m, r.choice(VAL[m])] for m in names]
            out = []
            self.ntag = 0
            self.block(r, names, 0, out, 4)
            yield {"id": f"d{k}", "init": {"k": "direct", "lines": out, "macros": macros, "cpu": cpu, "os": os_,
                                           "stable": True}, "ev": [{"op": "lines"}]}
        for k in range(n):
            names = [m for m in MAC if r.random() < .6]
            macros = [[m, r.choice(VAL[m])] for m in names]
            evs = []
            for _ in range(4):
                w, e = self.cond(r, r.choice(["%if", "%el"]), names + ["vnone"])
                evs.append({"op": "resolve", "kw": w, "expr": e})
            yield {"id": f"r{k}", "init": {"k": "direct", "lines": [], "macros": macros, "cpu": cpu, "os": os_,
                                           "stable": True}, "ev": evs}
        self.wild = False
        for k in range(n // 2):
            outer = [m for m in MAC if r.random() < .3]
            macros = [[m, r.choice(["1", "0"] if m == "vc" and "va" not in outer else VAL[m])] for m in outer]
            names = list(outer)
            self.header = True
            out = []
            self.ntag = 0
            for m in MAC:
                # macros defined by the spec itself, once, before any use
                if r.random() < .5 and m not in outer and m != "vempty":
                    v = r.choice(VAL[m])
                    if "va" in v and "va" not in names:
                        v = "1"
                    kw = r.choice(["%global", "%define"])
                    x = r.randrange(3)
                    if x == 0:
                        out.append(f"{kw} {m} {v}")
                        names.append(m)
                    elif x == 1:
                        w, e = self.cond(r, "%if", names)
                        out += [f"{w} {e}", f"{kw} {m} {v}", "%else", f"%global {m} 7" if m != "vlist" and m != "vstr" else f"%global {m} zz", "%endif"]
                        names.append(m)
                    else:
                        # defined only if the condition holds: use it guarded
                        w, e = self.cond(r, "%if", names)
                        out += [f"{w} {e}", f"{kw} {m} {v}", "%endif"]
            self.header = False
            self.block(r, names, 0, out, 3)
            yield {"id": f"s{k}", "init": {"k": "spec", "lines": HEAD + out, "macros": macros, "cpu": cpu, "os": os_,
                                           "stable": True}, "ev": [{"op": "spec"}]}
        base = {"cpu": cpu, "os": os_, "macros": [], "stable": False}
        yield {"id": "kf-later", "kf": "macro-defined-later", "init": {
            "k": "spec", "lines": HEAD + ["%if 0%{?va}", "Provides: a", "%endif", "%global va 1"], **base},
            "ev": [{"op": "spec"}]}
        yield {"id": "kf-redef", "kf": "macro-redefined-later", "init": {
            "k": "spec", "lines": HEAD + ["%global va 1", "%if 0%{?va}", "Provides: a", "%endif", "%global va 0"], **base},
            "ev": [{"op": "spec"}]}
        yield {"id": "kf-str0", "kf": "string-zero", "init": {"k": "direct", "lines": [], **base},
               "ev": [{"op": "resolve", "kw": "%if", "expr": '"0"'}]}

    def run(self, case):
        import rpm

        from specfile.conditions import process_conditions, resolve_expression
        from specfile.macro_definitions import MacroDefinitions
        from specfile.sections import Section
        from specfile.tags import Tags
        init = case["init"]
        rpm.reloadConfig()
        out = []
        lines = init["lines"]
        if init.get("k", "direct") == "direct":
            for m, v in init["macros"]:
                rpm.addMacro(m, v)
        for ev in case["ev"]:
            if ev["op"] == "resolve":
                out.append({"value": resolve_expression(ev["kw"], ev["expr"])})
            elif ev["op"] == "lines":
                res = process_conditions(list(lines), MacroDefinitions.parse(list(lines)))
                defs = MacroDefinitions.parse(list(lines), with_conditions=True)
                tags = Tags.parse(Section("package", data=list(lines)))
                out.append({"text": [S(x) for x, _ in res], "valid": [v for _, v in res],
                            "defs": [{"name": S(d.name), "valid": d.valid} for d in defs],
                            "tags": [{"name": S(t.name), "valid": t.valid} for t in tags]})
            else:
                spec = docs.open_spec("\n".join(lines + ["%description", "x", ""]),
                                      macros=[tuple(m) for m in init["macros"]], force_parse=True)
                with spec.macro_definitions() as defs, spec.tags() as tags:
                    out.append({"defs": [{"name": S(d.name), "valid": d.valid} for d in defs],
                                "tags": [{"name": S(t.name), "valid": t.valid} for t in tags]})
        return out


HEAD = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: MIT"]


def make(tier, seed):
    return C06(tier, seed)
