"""C15: version, release and the other tag properties."""
import re

import docs
from c14 import TRAILER, prot_names
from core import MC_CFG, MC_LAST, Check, S, exc

PROPS = ["name", "version", "release", "summary", "license", "epoch", "url"]
PATTERNS = {1: r"([.\-_~^]?)(alpha|beta|rc|pre)\d*", 2: r"(-?)(rc|dev)\d+", 3: r"rc\d*"}


class C15(Check):
    prop = "C15"
    assumptions = ("values of letters, digits and . _ ~ + ^ - and references to macros and tags",)

    def models(self):
        yield "MC_C15", MC_CFG + (" Size = 4\n MaxDepth = 1\n" if self.thorough else " Size = 3\n MaxDepth = 1\n")
        if self.thorough:
            yield "MC_C15", MC_CFG + " Size = 2\n MaxDepth = 3\n"
        yield "MC_C15", MC_LAST + " Size = 1\n MaxDepth = 2\n"

    def release(self, r):
        k = r.random()
        if k < .5:
            return r.choice(["1", "0.1", "12", "0.9.rc1", "3.rc2", "0.1.beta", "9", "99", "1.2.3", "a", "a.9", "0", "010", "1.", "0.rc1", "5.alpha1.7", "%{x}", "1.%{x}"]) + r.choice(
                ["", "%{?dist}", "%{?dist}", "%dist", "%{dist}", "%{?dist}.2", "%{dist}.19", "%{?dist}.a", "%{?dist}x", "%{?dist}%{?x}"])
        if k < .6:
            return r.choice(["%autorelease", "%{autorelease}", "%{?autorelease}1", "1%{?x:%autorelease}", "%{autorelease -b 3}", "%autoreleases", "1%{!?autorelease:2}"])
        if k < .65:
            return r.choice(["%release_func 1", "%release_func  0.3%{?dist}", "%release_func", "%release_func x.1"])
        if k < .8:
            return r.choice(["%{baserelease}", "%{release}", "%{baserelease}%{?dist}", "%{?BASERELEASE}1"])
        return "".join(r.choice(["0", "1", "9", ".", "rc", "beta", "%{?dist}", "%dist", "a", "_", "0.", "%{x}"]) for _ in range(r.randint(1, 5)))

    def doc(self, r):
        lines = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            n = r.choice(["baserelease", "release", "BaseRelease", "RELEASE", "x", "pre", "pre", "prerelease"])
            body = r.choice(["1", "0.4", "19", "0.9.rc2", "rc1", "a", "b.3", "3.beta", "1%{?dist}"])
            line = r.choice(["%global ", "%define ", "%dnl %global ", "#global ", "# %%global ", "%dnl%define "]) + n + " " + body
            lines += r.choice([[line], [line], [line], ["%if 0", line, "%endif"], ["%if 1", line, "%else", line.replace(body, "8"), "%endif"]])
        lines.insert(0, "%define x 5")
        vals = {"Name": r.choice(["test", "test", "test", "test-%{x}"]), "Version": r.choice(["1", "1.2~rc3", "%{x}.0", "1%{?pre:~%{pre}}", "2.0%{?prerelease:~%{prerelease}}", "%{?pre:%{x}}1"]),
                "Release": self.release(r), "Summary": r.choice(["s", "s %{x}"]), "License": "MIT",
                "Epoch": r.choice(["", "", "", "1"]), "URL": r.choice(["", "", "http://%{name}/%{version}"])}
        if "%{release}" in vals["Release"] and not ({"%global release", "%define release"} & {l[:15] for l in lines[1:2]}):
            vals["Release"] = "1"  # (would refer to itself)
        for n, v in vals.items():
            if not v:
                continue
            line = r.choice([n, n, n.lower(), n.upper()]) + r.choice([":", ": ", ":\t", " : "]) + v
            k = r.random()
            if k < .12:
                other = n + ": " + r.choice(["7", "7%{?dist}"])
                lines += r.choice([["%if 0", other, "%endif", line], ["%if 1", line, "%else", other, "%endif"], ["%if 0", other, "%else", line, "%endif"]])
            else:
                lines.append(line)
            if r.random() < .1:
                lines.append(r.choice(["", "# x", "Requires: a"]))
        return lines

    def cases(self):
        r = self.rng
        for k in range(6000 if self.thorough else 600):
            lines = self.doc(r)
            for _ in range(20):
                if r.random() < .03 or docs.rpm_accepts(lines + TRAILER):
                    break
                lines = self.doc(r)
            evs = [{"op": "get"}]
            for _ in range(r.randint(1, 4)):
                op = r.choice(["set", "rel", "both", "bump", "bump", "ver", "ver"])
                if op == "set":
                    n = r.choice(PROPS)
                    evs.append({"op": op, "n": n, "v": r.choice(["1", "22"] if n == "epoch" else ["1", "2.0", "3%{?dist}", "%{x}", "9%{?dist}.1"])})
                elif op == "rel":
                    evs.append({"op": op, "v": r.choice(["1", "2", "0.1.rc1", "%{x}", "3%{?dist}"])})
                elif op == "both":
                    evs.append({"op": op, "n": r.choice(["2", "%{x}.1", "3~rc1"]), "v": r.choice(["1", "2", "4.a"])})
                elif op == "bump":
                    evs.append({"op": op})
                else:
                    v = r.choice(["2", "2.0", "1.1", "5.0", "2.0.1"]) + r.choice(["", "", "rc1", "-rc2", "~rc3", ".beta", "_pre4", "RC5", "-dev", "dev6", "--rc7", "rcrc8", "~alpha1.2", "^rc9x"])
                    evs.append({"op": op, "v": v, "pat": r.choice([0, 1, 1, 1, 2, 3]), "mac": r.choice(["", "pre", "pre", "prerelease", "nope"]),
                                "style": r.choice(["dnl", "hash"]), "prot": prot_names(lines, ".*name")})
                if r.random() < .4:
                    evs.append({"op": "get"})
            evs.append({"op": "get"})
            yield {"id": f"h{k}", "init": {"lines": lines, "macros": [["dist", ".el9"]]}, "ev": evs}

    def run(self, case):
        from specfile.exceptions import RPMException, SpecfileException
        from specfile.macro_definitions import CommentOutStyle
        lines = case["init"]["lines"] + TRAILER
        ok, spec = exc(docs.open_spec, "\n".join(lines) + "\n")
        if not ok:
            spec = docs.spec_with_lines(lines)
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            obs = {}
            if op == "get":
                attrs = [("raw_release" if p == "release" else p) for p in PROPS]

                def get(name):
                    good, v = exc(getattr, spec, name)
                    return ("!None" if v is None else S(v)) if good else "!" + type(v).__name__
                parses = exc(spec.expand, "")[0]
                obs = {"raw": [get(a) for a in attrs], "rel": get("release"), "auto": spec.has_autorelease,
                       "expanded": [get("expanded_" + a) if parses else "" for a in attrs],
                       "exprel": get("expanded_release") if parses else ""}
                ok, x = True, None
            elif op == "set":
                ok, x = exc(setattr, spec, "raw_release" if ev["n"] == "release" else ev["n"], ev["v"])
            elif op == "rel":
                ok, x = exc(setattr, spec, "release", ev["v"])
            elif op == "both":
                ok, x = exc(spec.set_version_and_release, ev["n"], ev["v"])
            elif op == "bump":
                ok, x = exc(spec.bump_release)
            else:
                kw = {}
                if ev["pat"]:
                    kw["prerelease_suffix_pattern"] = PATTERNS[ev["pat"]]
                if ev["mac"]:
                    kw["prerelease_suffix_macro"] = ev["mac"]
                if ev["style"] == "hash":
                    kw["comment_out_style"] = CommentOutStyle.HASH
                ok, x = exc(spec.update_version, ev["v"], **kw)
            obs["err"] = "" if ok else "rpm" if isinstance(x, RPMException) else "pattern" if isinstance(x, SpecfileException) else docs.err_of(ok, x)
            text = docs.lines_of(spec)
            obs["text"] = [S(t) for t in text[:-len(TRAILER)]] if text[-len(TRAILER):] == TRAILER else ["!" + repr(text)]
            out.append(obs)
        return out


def make(tier, seed):
    return C15(tier, seed)
