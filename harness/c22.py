"""C22: guessing the packager."""
import json
import os
import pwd
import shutil

import docs
from core import MC_CFG, MC_LAST, Check, S, dumps, exc

NA = "!none"
VARS = ("RPM_PACKAGER", "HOME", "PATH", "LOGNAME", "USER", "LNAME", "USERNAME", "XDG_CONFIG_HOME", "GIT_CONFIG_NOSYSTEM",
        "GIT_CONFIG_GLOBAL", "GIT_DIR", "GIT_CONFIG_COUNT", "GIT_CONFIG_KEY_0", "GIT_CONFIG_VALUE_0", "GIT_CONFIG_KEY_1",
        "GIT_CONFIG_VALUE_1", "EMAIL", "GIT_CEILING_DIRECTORIES")
TEXT = "Name: test\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n%description\nx\n%changelog\n"
NOBODY = 54321


def section(name, mail):
    return "[user]\n" + (f'\tname = "{name}"\n' if name != NA else "") + (f'\temail = "{mail}"\n' if mail != NA else "")


class C22(Check):
    prop = "C22"
    assumptions = ("git is installed and reads its configuration as documented", "the password database of the machine")

    def __init__(self, *a):
        super().__init__(*a)
        ps = [p for p in pwd.getpwall() if p.pw_name.isascii() and p.pw_gecos.isascii() and '"' not in p.pw_gecos and "%" not in p.pw_gecos]
        full = [p for p in ps if p.pw_gecos.strip() and p.pw_gecos != p.pw_name] or [p for p in ps if p.pw_gecos.strip()]
        bare = [p for p in ps if not p.pw_gecos]
        self.full = (full[0].pw_gecos, full[0].pw_name) if full else None
        self.bare = bare[0].pw_name if bare else None
        self.git = shutil.which("git") is not None

    def usable(self, e):
        return not (e["git"] and not self.git) and not (e["login"] == "@LOGIN@" and not self.full) and not (e["login"] == "@LOGIN2@" and not self.bare)

    def fill(self, case):
        t = dumps(case)
        if self.full:
            t = t.replace("@GECOS@", dumps(self.full[0])[1:-1]).replace("@LOGIN@", self.full[1])
        if self.bare:
            t = t.replace("@LOGIN2@", self.bare)
        return json.loads(t)

    def models(self):
        if self.thorough:
            yield "MC_C22", MC_CFG + " Size = 2\n MaxDepth = 3\n"
        yield "MC_C22", MC_LAST + " Size = 1\n MaxDepth = 2\n"

    def model_case(self, case):
        return self.fill(super().model_case(case))

    def replay_model_cases(self, module, emitted):
        super().replay_model_cases(module, [e for e in emitted if all(self.usable(p["ev"]["env"]) for p in e["path"])])

    def env(self, r):
        user = r.choice([("@GECOS@", "@LOGIN@"), ("@GECOS@", "@LOGIN@"), ("", "@LOGIN2@"), ("", "ghost"), ("", "")])
        names = [NA, NA, "", "N One", "É", "a b", "x"]
        mails = [NA, NA, "", "n@e", "m@f.g"]
        e = {"rpmpackager": r.choice([NA, NA, NA, NA, "", "R <p>"]), "git": r.random() < .8, "gecos": user[0], "login": user[1],
             "envname": r.choice(names), "repname": r.choice(names), "usrname": r.choice(names),
             "envmail": r.choice(mails), "repmail": r.choice(mails), "usrmail": r.choice(mails),
             "var": r.choice(["LOGNAME", "USER", "LNAME", "USERNAME"]), "wrong": r.random() < .4}
        if not e["login"]:
            e["repname"] = e["repmail"] = e["usrname"] = e["usrmail"] = NA
        return e

    def cases(self):
        r = self.rng
        for k in range(4000 if self.thorough else 400):
            evs = []
            if r.random() < .7:
                for _ in range(r.randint(2, 7)):
                    op = r.choice(["guess", "guess", "define", "undefine"])
                    evs.append({"op": op, "v": r.choice(["", "P <q>", "x", "%%y", "%{?nope}"]) if op == "define" else "", "env": self.env(r)})
                init = {"k": "proc", "mac": NA}
            else:
                mac = r.choice([NA, NA, "", "S M <s@m>"])
                for _ in range(r.randint(1, 4)):
                    e = self.env(r)
                    while not e["login"]:
                        e = self.env(r)
                    evs.append({"op": "add", "env": e, "specmac": mac, "author": r.choice([NA, NA, NA, "Au", ""]), "email": r.choice([NA, NA, "", "a@u"])})
                init = {"k": "spec", "mac": mac}
            for e in evs:
                if e.get("v") == "%%y":
                    e["v"] = "y"
                if e.get("v") == "%{?nope}":
                    e["v"] = ""
            if all(self.usable(e["env"]) for e in evs):
                yield self.fill({"id": f"h{k}", "init": init, "ev": evs})

    def setup_env(self, e, home):
        for k in VARS:
            if k != "PATH":
                os.environ.pop(k, None)
        os.environ["HOME"] = home
        os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
        os.environ["GIT_CEILING_DIRECTORIES"] = os.path.dirname(home)
        order = ["LOGNAME", "USER", "LNAME", "USERNAME"]
        if e["login"]:
            i = order.index(e.get("var", "LOGNAME"))
            os.environ[order[i]] = e["login"]
            if e.get("wrong"):
                # variables of lower precedence do not count, empty ones are skipped
                for v in order[i + 1:]:
                    os.environ[v] = "wrong"
                for v in order[:i]:
                    os.environ[v] = ""
        if e["rpmpackager"] != NA:
            os.environ["RPM_PACKAGER"] = e["rpmpackager"]
        n = 0
        for key, val in (("user.name", e["envname"]), ("user.email", e["envmail"])):
            if val != NA:
                os.environ[f"GIT_CONFIG_KEY_{n}"], os.environ[f"GIT_CONFIG_VALUE_{n}"] = key, val
                n += 1
        if n:
            os.environ["GIT_CONFIG_COUNT"] = str(n)

    def run(self, case):
        from specfile.macros import Macros
        saved = {k: os.environ.get(k) for k in VARS}
        cwd = os.getcwd()
        spec = None
        out = []
        Macros.remove("packager")
        if case["init"]["k"] == "spec":
            mac = case["init"]["mac"]
            spec = docs.open_spec(TEXT, macros=[] if mac == NA else [("packager", mac)])
        try:
            for ev in case["ev"]:
                e = ev["env"]
                home = docs.new_dir()
                os.chdir(home)
                docs.write(os.path.join(home, ".gitconfig"), section(e["usrname"], e["usrmail"]))
                if e["git"] and (e["repname"] != NA or e["repmail"] != NA):
                    for d in ("objects", "refs"):
                        os.makedirs(os.path.join(home, ".git", d))
                    docs.write(os.path.join(home, ".git", "HEAD"), "ref: refs/heads/main\n")
                    docs.write(os.path.join(home, ".git", "config"), "[core]\n\trepositoryformatversion = 0\n" + section(e["repname"], e["repmail"]))
                self.setup_env(e, home)
                if not e["git"]:
                    os.environ["PATH"] = home
                try:
                    out.append(self.step(ev, spec))
                finally:
                    for k, v in saved.items():
                        if v is None:
                            os.environ.pop(k, None)
                        else:
                            os.environ[k] = v
        finally:
            os.chdir(cwd)
            Macros.remove("packager")
        return out

    def step(self, ev, spec):
        from specfile.changelog import guess_packager
        from specfile.exceptions import SpecfileException
        from specfile.macros import Macros
        op, ret, ok, x = ev["op"], "", True, None
        if op == "define":
            ok, x = exc(Macros.define, "packager", ev["v"])
        elif op == "undefine":
            ok, x = exc(Macros.remove, "packager")
        elif op == "guess":
            if ev["env"]["login"]:
                ok, x = exc(guess_packager)
            else:
                ok, x = self.as_nobody(guess_packager)
            ret = S(x) if ok else ""
        else:
            before = str(spec)
            ok, x = exc(spec.add_changelog_entry, "- x", *[None if ev[k] == NA else ev[k] for k in ("author", "email")], evr="1-1")
            if not ok and str(spec) != before:
                x = "changed"
        log = []
        if spec is not None:
            for line in str(spec).split("\n"):
                if line.startswith("* "):
                    head = line.split(" ", 5)
                    log.append(S(head[5][:-len(" - 1-1")] if head[5].endswith(" - 1-1") else "!" + line))
        return {"ret": ret, "err": "" if ok else "author" if isinstance(x, SpecfileException) else S(repr(x)), "log": log}

    def as_nobody(self, fn):
        """The call in a process whose user has no name."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir("/")
                os.environ["HOME"] = "/nonexistent"
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
                ok, x = exc(fn)
                os.write(w, dumps([ok, x if ok else repr(x)]).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        ok, x = json.loads(data.decode() or '[false, "died"]')
        return ok, x


def make(tier, seed):
    return C22(tier, seed)
