from vt.core import Prop, line


def u(s):
    return [ord(c) for c in s]


KEYS = ["a", "b", "key", "a.b", "x y", "\u00e4", "\\", "a\\n", "k\t1", "#c", "\u20acuro", "a:", "B", "1", "ab"]
VALUES = ["", "x", "true", "false", "True", "1", "0", "-5", "007", "-", "12a", "1.5", "a=b", "=", "\\", "\\\\", "\\n", "a\nb", "\n", "\r\n",
          "a\tb", "\t", "\\t", "\\\t", "\n\\", "C:\\new\\table", "\u00e4\u20ac", "two words", "#", "123456789012345678", "-12345678901234567",
          "\\x", "a\\", "\\\\n", "\ud83d\ude00", "\r", "x" * 300, "9\n9"]
LINES = ["a=1", "b = 2 ", " key =\tx", "=x", "novalue", "", "a==", "a.b=\\n\\t\\r\\\\", "b=\\x\\", "# a=3", "\u00e4=\u00e4", "a=", "x y=z", "key=true", "=", "a=\\\\n"]


class PROP(Prop):
    id = "P01"
    driver = "prefs"
    trace_module = "PrefsTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCPrefs", "MCPrefs_map.cfg"), ("MCPrefs", "MCPrefs_text.cfg")],
          "thorough": [("MCPrefs", "MCPrefs_mapt.cfg"), ("MCPrefs", "MCPrefs_textt.cfg")]}
    walk_len = 150
    walk_limit = 8000
    assumptions = ("keys are not empty, hold no '=' and no line break and have no white space at the ends; saved values have no blanks, "
                   "backspaces or form feeds at the ends; one process writes the file",)

    def walk_scenario(self, ops, module):
        s = []
        for o in super().walk_scenario(ops, module):
            w = o.split(" ")
            if w[0] == "keep":
                s += ["fresh", "set [107] " + w[1], "save", "fresh", "load", "get [107]"]
            elif w[0] == "take":
                s += ["fresh", "write [107,61%s%s]" % ("," if len(w[1]) > 2 else "", w[1][1:-1]), "load", "get [107]"]
            else:
                s.append(o)
        return s

    def gen(self, rng, tier):
        out = []
        for _ in range(60 if tier == "quick" else 3000):
            s = ["new"]
            ks = [u(k) for k in rng.sample(KEYS, rng.choice([2, 5, 12]))]
            vals = list(VALUES)
            for _ in range(6):
                vals.append("".join(rng.choice("\\\\ntr\n\t\r=x 0-\u00e4") for _ in range(rng.randint(1, 12))).strip(" "))
            units = lambda v: [x for c in v for x in ([ord(c)] if ord(c) < 65536 else [0xd800 + (ord(c) - 65536 >> 10), 0xdc00 + (ord(c) - 65536 & 1023)])]
            big = set()
            clean = lambda v: v == "" or (v[0] not in " \b\f" and v[-1] not in " \b\f")
            for _ in range(rng.choice([30, 120])):
                k = rng.choice(ks)
                op = rng.choice(["set"] * 5 + ["setint", "setbool", "setreal", "getreal", "getreal", "get", "getor", "getint", "getbool", "save", "save", "load", "load", "fresh", "write"])
                if op == "set":
                    v = rng.choice(vals)
                    if len(v) > 18 and v.lstrip("-").isdigit() and len(v.lstrip("-")) > 18:
                        continue
                    s.append(line("set", k, units(v)))
                    if all(0 < x < 128 for x in units(v)):
                        s.append(line("setlit", rng.choice(ks), units(v)))
                elif op == "setint":
                    s.append(line("setint", k, u(str(rng.choice([0, 1, -1, rng.randint(-10**16, 10**16), rng.randint(-99, 99)])))))
                elif op == "setreal":
                    w, f = rng.choice([0, 1, 9999999, rng.randint(0, 9999999), rng.randint(0, 99)]), rng.randint(0, 7)
                    s.append(line("setreal", k, int(w + f > 0 and rng.random() < .5), w, f))
                    if rng.random() < .7:
                        s.append(line("getreal", k, 0))
                elif op == "getreal":
                    s.append(line("getreal", k, rng.randint(-50, 50)))
                elif op == "setbool":
                    s.append(line("setbool", k, rng.randint(0, 1)))
                elif op == "get":
                    s.append(line("get", k))
                elif op == "getor":
                    s.append(line("getor", k, u(rng.choice(["", "dflt"]))))
                elif op == "getint":
                    s.append(line("getint", k, u(str(rng.randint(-50, 50)))))
                elif op == "getbool":
                    s.append(line("getbool", k, rng.randint(0, 1)))
                elif op == "write":
                    t = rng.choice(["\n", "\r\n", "\n\n"]).join(rng.choice(LINES) for _ in range(rng.randint(0, 8)))
                    t += rng.choice(["", "\n"])
                    if rng.random() < .3:
                        t += "".join(rng.choice("ab=\\nt\n\r x") for _ in range(rng.randint(0, 30)))
                    # no line with a name of blanks only: it could not be saved again
                    if any(x[:x.find("=")].strip() == "" and x.find("=") > 0 for x in t.replace("\r", "\n").split("\n")):
                        continue
                    s.append(line("write", list(t.encode("utf-8", "surrogatepass"))))
                else:
                    s.append(op)
            out.append(s)
        return out
