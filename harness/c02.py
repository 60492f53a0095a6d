"""C02: looking at a spec file changes nothing."""
import collections
import copy
import glob
import os
import re

import core
import docs
from core import MC_CFG, Check, S, dec_text, enc_text, exc

_template = None


def fresh(lines):
    """A Specfile object holding the given lines."""
    global _template
    if _template is None or _template[0] != os.getpid():
        _template = (os.getpid(), docs.open_spec(docs.BASE))
    spec = copy.deepcopy(_template[1])
    spec.path = os.path.join(docs.new_dir(), "test.spec")
    with spec.lines() as target:
        target[:] = lines
    return spec


GETTERS = {"get_raw_data", "get_raw_section_data", "get_comments", "get_position", "keys", "copy"}


def touch(o, depth=0):
    """Reads everything an object of the library offers for reading."""
    exc(repr, o)
    exc(str, o)
    if depth > 3 or isinstance(o, (str, int, float, type(None), bytes, bool)):
        return
    if isinstance(o, (list, tuple, collections.UserList)):
        exc(len, o)
        for f in (lambda: o[0], lambda: o[-1], lambda: o[:], lambda: o[::-1], lambda: o[1:2], lambda: o == o[:], lambda: list(reversed(o)),
                  lambda: o[0] in o, lambda: o.index(o[0]), lambda: o.count(o[-1]), lambda: o + [], lambda: copy.copy(o), lambda: copy.deepcopy(o) == o):
            exc(f)
        items = list(o)
        for x in items[:6] + items[-3:]:
            touch(x, depth + 1)
    if type(o).__module__.split(".")[0] != "specfile":
        return
    exc(lambda: o == copy.copy(o))
    exc(lambda: o == copy.deepcopy(o))
    exc(hash, o)
    for n in dir(type(o)):
        if n.startswith("_"):
            continue
        if n in GETTERS:
            exc(lambda: getattr(o, n)())
        elif isinstance(getattr(type(o), n, None), property):
            ok, v = exc(getattr, o, n)
            if ok:
                touch(v, depth + 1)
    for n, v in list(vars(o).items()):
        if not n.startswith("_"):
            touch(v, depth + 1)
    for n in ("name", "version", "source0", "Patch", "patch1", "q", "n", "p", "nosuch", "package", "changelog", "prep", "description", "setup", "a"):
        exc(getattr, o, n)
        exc(lambda: n in o)
        for m in ("find", "get", "find_all"):
            f = getattr(type(o), m, None)
            if callable(f):
                exc(lambda: getattr(o, m)(n))


# --------------------------------------------------------------------------
def quirky(line):
    """Option texts the library writes back in a simpler form (known findings)."""
    return re.match(r"%(package\s*$)|.*%(setup|autosetup|patch|autopatch)", line, re.I | re.S) and re.search(r"\\|\"\"|''|package\s*$|[\"'][^\s]|[^\s=][\"']", line, re.I) \
        or line.startswith("%") and re.search(r"\\.|\"\"|''|\w[\"']|[\"']\w", line) and re.match(r"%\w+", line) is not None and not line.startswith(("%global", "%define", "%if", "%el"))


class C02(Check):
    prop = "C02"
    case_limit = 60.0
    assumptions = ("options of %prep macros and section headers without redundant escapes and quotes (known findings)",)

    def models(self):
        yield "MC_C02", MC_CFG + (" Size = 3\n MaxDepth = 1\n" if self.thorough else " Size = 2\n MaxDepth = 1\n")

    # documents ---------------------------------------------------------------
    def corpus(self):
        out = []
        for p in sorted(glob.glob(os.path.join(core.REPO, "tests", "data", "*", "*.spec"))):
            with open(p, encoding="utf-8", errors="surrogateescape", newline="") as f:
                t = f.read()
            if "\r" not in t and "\0" not in t:
                out.append(t[:-1].split("\n") if t.endswith("\n") else t.split("\n"))
        return out

    def value(self, r):
        return r.choice(["x", "1.0", "%{name}-%{version}", "a b  c", "%{?dist}", "1%{?dist}", "%{?a:%{b}}", "%(echo %{name})", "%{lua:print(1)}", "%[1+1]", "é", "a # b",
                         "\"q q\"", "%%x", "%{nil}", "{", "%{", "}", "(", "https://e/%{name}-%{version}.tar.gz#/x", "%{expand:a", "a\\", "x\t", "%global q 1"])

    def preamble(self, r):
        v = self.value(r)
        return r.choice([
            f"Name: {v}", f"Version:\t{v}", f"Release :  {v} ", f"  Summary: {v}", f"BuildRequires: {v}", f"Requires(post): {v}", f"Source: {v}", f"Source0: {v}",
            f"Source10:{v}", f"Patch: {v}", f"Patch0001: {v}", f"%{{?a:Epoch: {v}}}", f"%{{!?b:Requires: {v} }} ", f"%{{?c:Source3: {v}", "}", "Provides: %{expand:\\", "Provides: %{lua:",
            "", " ", "\t", "# comment", "#Name: commented", "  # indented", "#", "%dnl x", f"%global g {v}", f"%define d() {v}", "%global m %{expand:\\", "%global m2 \\", f"  body {v}\\", "  end}",
            f"%{{!?w:%global w {v}}}", f"%{{!?w:%global w {v}", f"# %%global o {v}", f"%dnl %global o {v}", "%dnl %global o2 \\", "%undefine x", f"%if {v}", "%if 0", "%if 1", "%ifarch x86_64", "%else", "%elif 0", "%endif", " %endif", "%if 1 \\",
            "%include %{SOURCE1}", "%{load:%{SOURCE2}}", f"{v}", "just text: yes", "Name:", ":", "Name", "%bcond_without x", "DistTag: x", "VCS: git", "%{lua:", "print('a')", "}%{nil}", "Summary(cs): é", "ExcludeArch: %{ix86}"])

    def header(self, r):
        n = r.choice(["package", "description", "prep", "build", "install", "check", "files", "changelog", "changelog", "prep", "sourcelist", "patchlist", "post", "preun", "triggerin", "clean",
                      "conf", "generate_buildrequires", "Description", "CHANGELOG", "Prep", "SourceList", "nosuch", "verifyscript", "pretrans", "sepolicy"])
        o = r.choice(["", "", "", " ", " sub", " -n libx", "  -n  liby ", " -f f.lst", " -p <lua>", " -l cs", " %{nil}", " -n %{name}-d", "\tx", " -p /sbin/ldconfig -n z", " -- a, b", " %{?x}", "%{nil}", " -e", " -n"])
        if n in ("package",) and not o.strip():
            o = " sub"
        return "%" + n + o

    def content(self, r, h):
        n = h[1:].split(" ")[0].lower()
        if n == "prep":
            return r.choice(["%setup -q", "%setup -q -n %{name}-%{version}", "%autosetup -p1", "%autosetup -N -S git -n  x", "%patch0 -p1", "%patch -P 1 -p1", "%patch1 -b .x  -p2", "%{?a:%patch2 -p1}", "%{!?b:%setup -q -D -T -a 1 }",
                             "%patch", "%patch3   ", "  %setup", "cd x", "", "# %patch9", "%if 0", "%endif", "%autopatch -p1 -M 10", "%autopatch -m 1 2 3", "echo %patch0 -p1", "%setup -q -n \"a b\"", "%setup -qn x", "%setup -q && x", "%{__patch} -p1 < x",
                             "%patchx", "%setupq", "%%setup -q", "%{patch0}", "%patch -p1 -P", "%patch 1 2 -p1", "%setup -q -n 'a", "a 'b' \\", "%{?x:%setup -q", "}"])
        if n == "changelog":
            return r.choice(["* Mon Jan 01 2024 A B <a@b> - 1.0-1", "* Tue Jan  2 2024 C - 2", "* Wed Jan 3 2024 D", "*", "* x", "- a", "- b %{c}", "  more", "", " ", "\t", "- é", " * not", "%autochangelog", "%{?autochangelog}",
                             "* Thu Jan 04 12:00:00 UTC 2024 E <e@f> - 1:2-3", "# c", "%if 0", "%endif", "* Fri Jan 05 2024 G H <g@h> 3-1"])
        if n in ("sourcelist", "patchlist"):
            return r.choice(["a.tar.gz", "https://x/%{name}.tar.gz", "", " ", "# c", "  #d", "b", " indented ", "%if 0", "%else", "%endif", "%{?x:y}", "é", "%global q 1", "%global q \\", "c\\"])
        if n == "package" or n not in ("build", "install"):
            return self.preamble(r)
        return r.choice(["make", "x: y", "%make_build \\", "  -j", "%if 1", "%endif", "", "# c", "cat <<EOF", "Name: x", "EOF", "%{?a}", "%description inside", " %files"])

    def doc(self, r):
        out = [self.preamble(r) for _ in range(r.randint(0, 12))]
        if r.random() < .5:
            out[:0] = ["Name: test", "Version: 1.0", "Release: 1", "Summary: s", "License: MIT"]
        for _ in range(r.randint(0, 6)):
            h = self.header(r)
            out.append(h)
            out += [self.content(r, h) for _ in range(r.randint(0, 7))]
        return out

    def mutate(self, r, d):
        d = list(d)
        if len(d) > 60 and r.random() < .7:
            a = r.randrange(len(d) - 30)
            d = d[:r.randint(5, 15)] + d[a:a + r.randint(10, 40)]
        for _ in range(r.randint(1, 6)):
            i = r.randrange(len(d)) if d else 0
            x = r.random()
            if not d or x < .2:
                d.insert(i, self.preamble(r))
            elif x < .35:
                del d[i]
            elif x < .5:
                d.insert(r.randint(0, len(d)), d[i])
            elif x < .6:
                j = r.randrange(len(d))
                d[i], d[j] = d[j], d[i]
            elif x < .7 and i + 1 < len(d):
                d[i:i + 2] = [d[i] + r.choice(["", " "]) + d[i + 1]]
            elif d[i]:
                k = r.randrange(len(d[i]))
                y = r.random()
                if y < .4:
                    d[i] = d[i][:k] + d[i][k + 1:]
                else:
                    d[i] = d[i][:k] + r.choice([" ", "  ", "\t", "%", "{", "}", "(", ")", ":", "#", "-", "?", "*", "\x0b", "\x85", "%%", "é", "\udcff", "%{?x:", "["]) + d[i][k:]
        return d

    KINDS = ["lines", "md", "sections", "tags", "tags", "secs", "changelog", "logs", "prep", "sources", "patches"]

    def events(self, r):
        evs = []
        for _ in range(r.randint(2, 5)):
            kinds = [r.choice(self.KINDS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if r.random() < .15:
                kinds = [r.choice(["props", "parsed", "copy", "expand", "auto"])]
            evs.append({"op": "views", "kinds": kinds, "read": r.random() < .5, "exc": r.random() < .2})
        return evs

    def cases(self):
        r = self.rng
        corpus = self.corpus()
        k = 0
        for d in corpus:
            for kind in sorted(set(self.KINDS)) + ["props", "auto"]:
                yield self.case(f"corpus{k}", d, [{"op": "views", "kinds": [kind], "read": True, "exc": False}])
                k += 1
        for k in range(8000 if self.thorough else 1300):
            d = self.doc(r) if r.random() < .65 else self.mutate(r, r.choice(corpus))
            d = [x for x in d if not quirky(x)]
            yield self.case(f"d{k}", d, self.events(r))
        for n, kf, d, kind in (
                (1, "prep-option-quoting", ["%prep", "%setup -q -n a\\b"], "prep"),
                (3, "section-option-quoting", ["Name: x", "%package -n a\\b"], "sections"),
                (2, "bare-package-header", ["Name: x", "%package", "Version: 1"], "sections")):
            yield self.case(f"kf{n}", d, [{"op": "views", "kinds": [kind], "read": False, "exc": False}], kf=kf)

    def case(self, id, d, evs, **kw):
        d = [enc_text(x.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape")) for x in d]
        return dict({"id": id, "init": {"lines": d, "small": len(d) <= 25 and not any("\n" in x for x in d) and id[0] == "z"}, "ev": evs}, **kw)

    # driver ------------------------------------------------------------------
    def run(self, case):
        lines = [dec_text(x) for x in case["init"]["lines"]]
        spec = fresh(lines)
        out = []
        for ev in case["ev"]:
            exc(self.through, spec, list(ev["kinds"]), ev["read"], ev["exc"])
            with spec.lines() as now:
                got = [S(x) for x in now]
                odd = "" if type(now) is list and all(isinstance(x, str) for x in now) else S(repr(now))
            if not odd and str(spec) != "\n".join(now) + "\n":
                odd = "text: " + S(str(spec))
            out.append({"lines": got, "odd": odd})
        return out

    def through(self, spec, kinds, read, raising):
        if not kinds:
            if raising:
                raise KeyError("mine")
            return
        kind, rest = kinds[0], kinds[1:]
        if kind == "props":
            for n in dir(type(spec)):
                if isinstance(getattr(type(spec), n, None), property):
                    exc(getattr, spec, n)
        elif kind == "auto":
            exc(lambda: spec.has_autorelease)
            exc(lambda: spec.has_autochangelog)
            exc(lambda: spec.contains_autochangelog(spec.parsed_sections[0]))
        elif kind == "parsed":
            exc(lambda: touch(spec.parsed_sections))
        elif kind == "copy":
            exc(lambda: copy.deepcopy(spec) == spec)
            exc(lambda: copy.copy(spec) == spec)
            exc(repr, spec)
        elif kind == "expand":
            exc(lambda: spec.expand("%{name}%{?foo}", extra_macros=[("foo", "1")]))
            exc(lambda: spec.get_active_macros())
            exc(lambda: spec.tainted)
        elif kind in ("secs", "logs"):
            with spec.sections() as ss:
                for s in list(ss):
                    exc(self.one, spec, spec.tags if kind == "secs" else spec.changelog, s, read)
                self.through(spec, rest, read, raising)
        else:
            cm = getattr(spec, {"md": "macro_definitions"}.get(kind, kind))()
            with cm as v:
                self.through(spec, rest, read, raising)
                if read:
                    touch(v)

    def one(self, spec, view, section, read):
        with view(section) as v:
            if read:
                touch(v)


def make(tier, seed):
    return C02(tier, seed)
