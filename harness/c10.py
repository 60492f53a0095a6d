"""C10: add_changelog_entry."""
import calendar
import datetime
import os
import pwd
import shutil
import time

import docs
from core import MC_CFG, Check, S, exc
from c09 import CONT, header

NA = "!none"
ENV = ("RPM_PACKAGER", "HOME", "PATH", "LOGNAME", "TZ", "XDG_CONFIG_HOME", "GIT_CONFIG_NOSYSTEM", "GIT_CONFIG_GLOBAL", "GIT_DIR")


class C10(Check):
    prop = "C10"
    assumptions = ("the spec file can be parsed by rpm", "years 1000 to 9999")

    def models(self):
        yield "MC_C10", MC_CFG + (" Size = 3\n MaxDepth = 1\n" if self.thorough else " Size = 2\n MaxDepth = 1\n")
        if not self.thorough:
            yield "MC_C10", MC_CFG + " Size = 1\n MaxDepth = 2\n"

    def cases(self):
        r = self.rng
        users = [p for p in pwd.getpwall() if p.pw_name.isascii() and p.pw_gecos.isascii()][:20]
        n = 5000 if self.thorough else 700
        git = shutil.which("git") is not None
        for k in range(n):
            ver, rel = r.choice(["1", "1.2~rc1", "0^git"]), r.choice(["1", "3.a", "0.1"])
            ep = r.choice(["", "", "2"])
            lines = ["Name: test", "Version: " + ver, "Release: " + rel + r.choice(["", "%{?dist}"]), "Summary: s", "License: MIT"]
            mac = [["name", "test"], ["version", ver], ["release", rel], ["dist", ""]]
            if ep:
                lines.append("Epoch: " + ep)
                mac.append(["epoch", ep])
            if r.random() < .3:
                lines.insert(0, "%global mac x%{version}")
                mac.append(["mac", "x%{version}"])
            lines += ["%description", "x"]
            # rpm is strict about changelogs (one, in order, valid dates): it does not get to see the others
            plain = r.random() < .25
            if plain:
                lines += ["%changelog"] + ["* Mon Jan 01 2024 A <a@b> - 1-1", "- x", ""] * r.randint(0, 2)
            else:
                lines.append("%if 0")
            for _ in range(r.choice([0] if plain else [0, 1, 1, 1, 1, 2, 3])):
                lines.append(r.choice(["%changelog"] * 5 + ["%changelog ", "%Changelog", "%CHANGELOG"]))
                style = r.randrange(4)
                for _ in range(r.choice([0, 0, 1, 2, 3])):
                    h = header(r) if style == 0 else "* Mon Jan %s 2024 A <a@b> - 1-1" % (
                        ["1", "01", " 1", "11"][r.randrange(4)] + ("" if style == 1 else " 10:11:12 CET")
                        if style < 3 else r.choice(["  7", " 07", "7"]))
                    lines.append(h)
                    lines += [r.choice(["- x", "- y", "text", "", "* z"]) for _ in range(r.randint(0, 2))] + [""] * r.randint(0, 2)
                if r.random() < .2:
                    lines.append(r.choice(["%autochangelog", "%{autochangelog}", "%{?autochangelog}", "# %autochangelog", "%{?x:%autochangelog}", " %{!?x:%{autochangelog}}",
                                           "%%autochangelog", "%autochangelogs", "x %{?autochangelog} y", "%{lua: autochangelog }"]))
                if r.random() < .3:
                    lines += r.choice([["%build", "make"], ["%files", "%doc x"], ["%description -n foo", "x"]][:2])
            if not plain:
                lines += ["%install", "%endif"]
            evs = [{"op": "auto"}]
            for _ in range(r.randint(1, 3)):
                y = r.choice([1000, 1970, 1999, 2000, 2023, 2024, 2038, 2100, 9999, r.randint(1000, 9999)])
                m = r.randint(1, 12)
                d = r.randint(1, calendar.monthrange(y, m)[1])
                u = r.choice(users)
                ts = {"k": r.choice(["date", "date", "dt", "dt", "none"]), "y": y, "m": m, "d": d,
                      "hms": "%02d:%02d:%02d" % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)),
                      "tz": r.choice(["UTC", "CEST", "UTC+02:00"])}
                env = {"rpmpackager": r.choice([NA, NA, NA, "R P <r@p>", ""]), "packager": r.choice([NA, NA, "mac packager"]),
                       "git": git and r.random() < .7, "gitname": r.choice(["", "Git N"]), "gitemail": r.choice(["", "g@n.x"]),
                       "unix": u.pw_gecos or u.pw_name, "user": u.pw_name}
                evs.append({"op": "add", "text": r.choice([["- new"], ["- a", "- b"], ["- a\n- b"], [], ["- a", "", "- c"], ["- é"]]),
                            "author": r.choice([NA, NA, "A U Thor", "É", ""]), "email": r.choice([NA, "e@f.g", ""]),
                            "evr": r.choice([NA, NA, NA, "1-1", "%{version}-7%{?dist}", "", "%{?mac}-1", "3:%{name}"]),
                            "ts": ts, "env": env, "zone": r.choice(["AAA+12", "BBB-14", "UTC"]), "str": r.random() < .5})
                evs.append({"op": "auto"})
            packager = {e["env"]["packager"] for e in evs if e["op"] == "add"}
            if len(packager) > 1:
                # %packager belongs to the whole history
                p = r.choice(sorted(packager))
                for e in evs:
                    if e["op"] == "add":
                        e["env"]["packager"] = p
            yield {"id": f"h{k}", "init": {"lines": lines, "macros": mac}, "ev": evs}

    def run(self, case):
        init = case["init"]
        packager = [e["env"]["packager"] for e in case["ev"] if e["op"] == "add"]
        macros = [("packager", packager[0])] if packager and packager[0] != NA else []
        spec = docs.open_spec("\n".join(init["lines"]) + "\n", macros=macros)
        out = []
        for ev in case["ev"]:
            if ev["op"] == "auto":
                out.append({"auto": spec.has_autochangelog, "lines": [S(x) for x in docs.lines_of(spec)]})
            else:
                out.append(self.add(spec, ev))
        return out

    def add(self, spec, ev):
        from specfile.exceptions import SpecfileException
        e, ts = ev["env"], ev["ts"]
        saved = {k: os.environ.get(k) for k in ENV}
        cwd = os.getcwd()
        home = docs.new_dir()
        try:
            os.chdir(home)
            for k in ENV:
                if k != "PATH":
                    os.environ.pop(k, None)
            os.environ["HOME"] = home
            os.environ["LOGNAME"] = e.get("user", "root")
            os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
            os.environ["TZ"] = ev.get("zone", "UTC")
            time.tzset()
            if e["rpmpackager"] != NA:
                os.environ["RPM_PACKAGER"] = e["rpmpackager"]
            if not e["git"]:
                os.environ["PATH"] = home
            docs.write(os.path.join(home, ".gitconfig"), "[user]\n" + (f"name = {e['gitname']}\n" if e["gitname"] else "")
                       + (f"email = {e['gitemail']}\n" if e["gitemail"] else ""))
            if ts["k"] == "none":
                stamp = None
            elif ts["k"] == "date":
                stamp = datetime.date(ts["y"], ts["m"], ts["d"])
            else:
                h, m, s = map(int, ts["hms"].split(":"))
                tz = {"UTC": datetime.timezone.utc, "CEST": datetime.timezone(datetime.timedelta(hours=2), "CEST"),
                      "UTC+02:00": datetime.timezone(datetime.timedelta(hours=2))}[ts["tz"]]
                if ts["tz"] == "UTC" and int(ts["hms"][-1]) % 2:
                    tz = None
                stamp = datetime.datetime(ts["y"], ts["m"], ts["d"], h, m, s, tzinfo=tz)
            text = ev["text"]
            if len(text) == 1 and ev.get("str"):
                text = text[0]
            before = docs.lines_of(spec)
            for _ in range(40):
                # done within one second, so that the current time is known
                now = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)
                ok, x = exc(spec.add_changelog_entry, text, *[None if v == NA else v for v in (ev["author"], ev["email"])],
                            timestamp=stamp, evr=None if ev["evr"] == NA else ev["evr"])
                if stamp is not None or datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0) == now:
                    break
                with spec.lines() as target:
                    target[:] = before
            lines = docs.lines_of(spec)
            loc = now.astimezone()
            return {"err": "" if ok else "author" if isinstance(x, SpecfileException) else S(repr(x)), "lines": [S(x) for x in lines],
                    "utc": {"k": "date", "y": now.year, "m": now.month, "d": now.day, "hms": "", "tz": ""},
                    "local": {"k": "dt", "y": loc.year, "m": loc.month, "d": loc.day, "hms": f"{loc:%H:%M:%S}", "tz": loc.tzname()}}
        finally:
            for k, v in saved.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            time.tzset()
            os.chdir(cwd)


def make(tier, seed):
    return C10(tier, seed)
