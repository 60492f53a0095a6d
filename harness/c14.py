"""C14: updating tags through the macros and tags they refer to."""
import re

import docs
from core import MC_CFG, Check, S, exc

TRAILER = ["%description", "x"]


def prot_names(lines, pattern):
    """Names of definitions and tags the protecting pattern matches (as written)."""
    if pattern is None:
        return []
    rx = re.compile(pattern, re.IGNORECASE)
    names = set()
    for line in lines:
        for w in re.findall(r"%(?:global|define)\s+(\w+(?:\(\))?)", line) + re.findall(r"^\s*([A-Za-z]+)\s*:", line):
            if rx.match(w):
                names.add(w)
    return sorted(names)


class C14(Check):
    prop = "C14"
    assumptions = ("macro and tag values of letters, digits and . _ ~ + ^ and references to macros and tags",
                   "unconditional references are to names defined by the spec file")

    def models(self):
        yield "MC_C14", MC_CFG + " Size = 1\n MaxDepth = 2\n"
        if self.thorough:
            yield "MC_C14", MC_CFG + " Size = 2\n MaxDepth = 1\n"

    def value(self, r, names, depth=0):
        """A value referring to some of the names."""
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            k = r.random()
            if k < .45 or not names:
                out.append(r.choice(["1", "2", ".", ".", "3.4", "~rc", "0", "a", "_", "1.2.3", ".x.", "+", "^5"]))
            elif k < .75:
                n = r.choice(names)
                out.append(r.choice(["%{N}", "%{N}", "%{?N}", "%{!?N}"]).replace("N", n))
            elif k < .85:
                out.append("%{?dist}")
            else:
                n = r.choice(names + ["pre", "undefd"])
                out.append(r.choice(["%{?", "%{?", "%{!?", "%{!!?"]) + n + ":" + (self.value(r, names, depth + 1) if depth < 2 else "z") + "}")
        return "".join(out)

    def doc(self, r):
        lines, names = [], []
        tags = [("Name", ["test"]), ("Version", None), ("Release", None), ("Summary", ["s"]), ("License", ["MIT"])]
        if r.random() < .4:
            tags.insert(r.randint(0, 3), ("URL", None))
        if r.random() < .3:
            tags.insert(r.randint(0, 3), ("Epoch", ["3", "0"]))
        if r.random() < .2:
            tags = tags[:1] + r.sample(tags[1:], len(tags) - 1)
        macros = r.sample(["a", "b", "c", "pre", "majorname", "ver_1", "A", "version_x"], r.randint(0, 5))
        if r.random() < .2 and macros:
            macros.append(r.choice(macros))
        late = r.choice([[], [], ["pre"], [r.choice(macros or ["a"])]])
        todo = [("m", x) for x in macros]
        for t in tags:
            todo.insert(r.randint(0, len(todo)) if r.random() < .4 else len(todo), ("t", t))
        todo += [("m", x) for x in late]
        macros = macros + late
        for kind, x in todo:
            if r.random() < .08:
                lines.append(r.choice(["", "# comment", "#%{a}"]))
            if kind == "m":
                body = self.value(r, names) if r.random() < .6 else r.choice(["1", "2.3", "rc1", "0", "4.5.6", "%{nil}x", "7", "beta2"])
                body = body.replace("%{nil}", "")
                # (a redefinition that refers to itself must be expanded at once)
                kw = "%global" if macros.count(x) > 1 else r.choice(["%global", "%global", "%define"])
                off = r.random() < (.5 if x == "pre" else .15)
                line = (r.choice(["%dnl ", "# "]) if off else "") + kw + r.choice([" ", "  "]) + x + r.choice([" ", "\t"]) + body
                if off:
                    line = line.replace("# %", "# %%") if line.startswith("#") else line
                if r.random() < .08:
                    cond = r.choice(["%if 1", "%if 0"])
                    lines += [cond, line, "%endif"]
                    if cond == "%if 1" and not off:
                        names.append(x)
                else:
                    lines.append(line)
                    if not off:
                        names.append(x)
            else:
                n, vals = x
                v = r.choice(vals) if vals else self.value(r, names)
                if n == "URL":
                    v = "https://" + v
                if n == "Version" and r.random() < .6 and names:
                    v = r.choice(["%{N}", "%{N}%{?pre:~%{pre}}", "%{N}.%{M}", "1.%{N}", "%{N}-%{M}".replace("-", "_"), "%{N}%{!?pre:.0}"]).replace(
                        "N", r.choice(names)).replace("M", r.choice(names))
                if n == "Release" and r.random() < .5:
                    v = r.choice(["1%{?dist}", "1%{?dist:%{dist}}", "0%{?pre:.%{pre}}%{?dist}", "%{N}%{?dist}" if names else "3", "4"]).replace("N", (names or ["x"])[-1])
                lines.append(r.choice([n, n, n.lower(), n.upper()]) + r.choice([": ", ":\t", ":  "]) + v)
                names.append(n.lower())
                if r.random() < .3:
                    names.append(n.upper())
        return lines, names, [t[0] for t in tags]

    def cases(self):
        r = self.rng
        n = 6000 if self.thorough else 1100
        for k in range(n):
            lines, names, tags = self.doc(r)
            for _ in range(12):
                if r.random() < .02 or docs.rpm_accepts(lines + TRAILER):
                    break
                lines, names, tags = self.doc(r)
            evs = []
            for _ in range(r.randint(1, 3)):
                pat = r.choice([".*name", ".*name", ".*name", None, "a|b", "pre", "ver", "VERSION", "."])
                prot = prot_names(lines, pat)
                if r.random() < .8:
                    n_ = r.choice(["version", "version", "version", "Release", "url", "Epoch", "name", "summary", "VERSION", "group"])
                    # the requested value refers to what is defined before the tag
                    at = [i for i, l in enumerate(lines) if l.lower().startswith(n_.lower() + ":")] or [0]
                    known = [x for x in names if x != n_.lower() and x != n_.upper() and any(
                        re.search(r"^(%(global|define)\s+" + x + r"\s|(?i:" + x + r")\s*:)", l) for l in lines[:at[0]])]
                    v = self.request(r, known, lines, n_)
                    evs.append({"op": "tag", "n": n_, "v": v, "prot": prot, "pat": pat or "(?!)", "none": pat is None})
                else:
                    old = self.value(r, names)
                    evs.append({"op": "value", "n": "", "old": old, "v": self.request(r, names, [old], ""), "pos": r.randint(0, len(lines)),
                                "prot": prot, "pat": pat or "(?!)", "none": pat is None})
            yield {"id": f"h{k}", "init": {"lines": lines, "macros": [["dist", ".el9"]]}, "ev": evs}

    def request(self, r, names, lines, n):
        """Values near to what is there."""
        k = r.random()
        if n.lower() == "epoch":
            return r.choice(["4", "11"])
        old = [l for l in lines if l.lower().startswith(n.lower())] if n else lines
        old = old[0].split(":", 1)[-1].strip() if old else "1"
        if k < .1:
            return old
        if k < .7:
            # references replaced by something
            def sub(m):
                if m.group(1) is not None and r.random() < .5:
                    return ""
                return r.choice(["1", "2", "3.4", "5", "rc2", "x9", "1.2.3"])
            v = old
            for _ in range(4):
                v = re.sub(r"%\{(!?\?!?[\w]+:)?[^{}]*\}", sub, v)
            if r.random() < .4 and v:
                i = r.randrange(len(v))
                v = v[:i] + r.choice(["7", ".", "~", "8.9", ""]) + v[i + (r.random() < .5):]
            if v.count("{") != v.count("}"):
                v = re.sub("[%{}?!:]", "", v)
            if n.lower() == "url":
                v = v.replace("https://", r.choice(["https://", "http://"]))
            return v or "6"
        if k < .74 and names:
            n1, n2 = r.choice(names), r.choice(names)
            return r.choice(["3%{?N:.%{M}}", "%{!?undefd:%{M}}4", "%{?N:%{?M:%{N}}}5", "%{?N:1.%{M}.2}"]).replace("N", n1).replace("M", n2)
        if k < .8:
            return self.value(r, names) or "6"
        return r.choice(["1", "2.0", "2.0~rc1", "1.2.3", "5_6", "1%{?dist}", "9.9.9", "0.rc1.el9", "0.5%{?dist}", "a"])

    def run(self, case):
        from specfile.exceptions import RPMException
        lines = case["init"]["lines"] + TRAILER
        ok, spec = exc(docs.open_spec, "\n".join(lines) + "\n")
        if not ok:
            spec = docs.spec_with_lines(lines)
        out = []
        for ev in case["ev"]:
            prot = None if ev.get("none") else ev.get("pat", "|".join(x + "$" for x in ev["prot"]) or "(?!)")
            if ev["op"] == "tag":
                ok, x = exc(spec.update_tag, ev["n"], ev["v"], prot)
            else:
                ok, x = exc(spec.update_value, ev["old"], ev["v"], ev["pos"], prot)
            err = "" if ok else "rpm" if isinstance(x, RPMException) else docs.err_of(ok, x)
            text = docs.lines_of(spec)
            tail = text[-len(TRAILER):]
            obs = {"err": err, "text": [S(t) for t in text[:-len(TRAILER)]] if tail == TRAILER else ["!" + repr(text)],
                   "ret": S(x) if ok and ev["op"] == "value" else "", "sane": exc(spec.expand, "")[0], "expanded": "", "wanted": ""}
            if obs["sane"] and ok and ev["op"] == "tag":
                with spec.tags() as tags:
                    value = getattr(tags, ev["n"]).value
                obs["expanded"], obs["wanted"] = [S(x if good else "!" + str(x)) for good, x in (exc(spec.expand, value), exc(spec.expand, ev["v"]))]
            out.append(obs)
        return out


def make(tier, seed):
    return C14(tier, seed)
