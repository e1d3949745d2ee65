import os
import shutil
import subprocess

from vt import build
from vt.core import Prop, line

LOCALES = {"de_DE.UTF-8": "de_DE", "de_AT.UTF-8": "de_AT", "fr_FR.UTF-8": "fr_FR", "eo.UTF-8": "eo"}
HAVE = {}


def u(s):
    return [ord(c) for c in s]


def locales():
    """Languages besides C, compiled from the system's sources; without them the checks speak C only."""
    top = os.path.join(build.BUILD, "locales")
    os.makedirs(top, exist_ok=True)
    for n, src in LOCALES.items():
        d = os.path.join(top, n)
        if not os.path.isdir(d) and shutil.which("localedef"):
            tmp = d + ".%d" % os.getpid()
            subprocess.run(["localedef", "-i", src, "-f", "UTF-8", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(os.path.join(tmp, "LC_CTYPE")):
                try:
                    os.rename(tmp, d)
                except OSError:
                    pass
            shutil.rmtree(tmp, ignore_errors=True)
        HAVE[n] = os.path.isdir(d)
    return top


class PROP(Prop):
    id = "A01"
    driver = "app"
    trace_module = "AppTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCApp", "MCApp_lifeq.cfg"), ("MCApp", "MCApp_logq.cfg"), ("MCApp", "MCApp_pickq.cfg")],
          "thorough": [("MCApp", "MCApp_lifet.cfg"), ("MCApp", "MCApp_logq.cfg"), ("MCApp", "MCApp_pickq.cfg")]}
    walk_len = 120
    walk_limit = 6000
    assumptions = ("every run is a process that initialises the library once; settings fit in a file (P01) and no run ends while it "
                   "saves; logged texts are ASCII; the language is joined to its region by '_' or '-'; catalogs are sound (I01)",)

    def prepare(self, scratch):
        if os.geteuid() == 0:
            os.chmod(os.path.dirname(scratch), 0o711)
            os.chown(scratch, 65534, 65534)
        return {"LOCPATH": locales()}

    def walk_scenario(self, ops, module):
        s = super().walk_scenario(ops, module)
        locales()
        # languages that are not there cannot be spoken
        if not all(HAVE.values()):
            s = [o for o in s if "95,68,69" not in o and "95,70,82" not in o] if not any(o.startswith("start") and "95," in o for o in s) else [self.new_line]
        return s

    def gen(self, rng, tier):
        locales()
        names = ["C", "C.UTF-8"] + [n for n in LOCALES if HAVE[n]]
        out = []
        for _ in range(40 if tier == "quick" else 1200):
            s = ["new"]
            bundles = rng.sample(["com.example.app", "a", "B.b-c", "de.test", "x y"], rng.choice([1, 2]))
            keys = [u(k) for k in ("k", "a.b", "\u00e4", "x y")]
            vals = [u(v) for v in ("1", "", "true", "a=b", "line\nbreak", "\\", "C:\\new", "\u00e4\u20ac", "two words", "x" * 300)]
            run = {}
            told = ["k", "ERROR: ", "WARNING: ", "INFO: ", "Hello", "DEBUG: "]
            for _ in range(rng.choice([20, 60])):
                k = rng.choice([1, 1, 2])
                if k not in run:
                    if rng.random() < .4:
                        lang = rng.choice(["de_DE", "de", "de_AT", "fr", "fr_FR", "eo", "C"])
                        f = rng.choice(["", ".", "a.", "com.example.app."]) + lang + ".mo"
                        if rng.random() < .75:
                            es = [[u(x), u(rng.choice(["", f + " "]) + x.upper())] for x in rng.sample(told, rng.randint(0, 4))]
                            s.append(line("res", u(f), es))
                        else:
                            s.append(line("unres", u(f)))
                    else:
                        b = rng.choice([""] + bundles * 4)
                        e = [u(rng.choice(["", rng.choice(names)])) if rng.random() < .5 else [] for _ in range(4)]
                        # an empty setting of all must be absent, or C
                        s.append(line("start", k, u(b), e, u(rng.choice(["", "user", "some one"])), int(rng.random() < .85)))
                        run[k] = dict(b=b, date=1)
                    continue
                r = run[k]
                op = rng.choice(["set"] * 6 + ["get"] * 3 + ["save"] * 2 + ["quit", "quit", "kill", "who", "tr", "tr", "pick", "pick", "date", "label", "log", "log", "log", "logs",
                                 "err", "auto", "drain", "places", "library"])
                if op == "set" and r["b"]:
                    s.append(line("set", k, rng.choice(keys), rng.choice(vals)))
                elif op == "get" and r["b"]:
                    s.append(line("get", k, rng.choice(keys)))
                elif op in ("quit", "kill"):
                    s.append(line(op, k))
                    del run[k]
                elif op == "tr":
                    s.append(line("tr", k, u(rng.choice(told))))
                elif op == "pick":
                    s.append(line("pick", k, u(rng.choice(["", "a", "com.example.app", "z"])), u(rng.choice(["", "de-DE", "de_DE", "de-AT", "de_CH", "de", "fr-CA", "eo", "it"])), u("k")))
                elif op == "date":
                    r["date"] = rng.choice([0, 0, 1])
                    s.append(line("date", k, r["date"]))
                elif op == "label":
                    s.append(line("label", k, rng.randint(0, 3)))
                elif op == "log":
                    level = rng.choice([0, 1, 2, 3, 3])
                    t = rng.choice(["", "", "message", "100 % of %1", "a" * rng.randint(1, 600), "\\n", "[x]"])
                    s.append(line("log", k, level, u(t)))
                    if level == 3:
                        s.append(line("err", k))
                elif op == "logs":
                    if r["date"] == 0:
                        s += [line("logs", k, rng.choice([2, 4, 8]), rng.choice([5, 20]), rng.choice([0, 1, 2, 3]))]
                        s.append(line("err", k)) if rng.random() < .5 else None
                elif op == "auto":
                    s.append(line("auto", k, rng.choice([1, 3, 50])))
                elif op in ("save", "who", "err", "drain", "places", "library"):
                    s.append(line(op, k))
            out.append(s)
        return out
