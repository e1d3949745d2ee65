from vt.core import Prop, line
from checks.M02 import SEQ


def o(s):
    return [ord(c) for c in s]


class PROP(Prop):
    id = "M04"
    driver = "par"
    flavour = "sched"
    trace_module = "ParTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCPar", "MCPar_run.cfg"), ("MCPar", "MCPar_pairs.cfg")],
          "thorough": [("MCPar", "MCPar_runt.cfg"), ("MCPar", "MCPar_pairst.cfg")]}
    walk_len = 8
    assumptions = SEQ + ("threads are interrupted where they use memory or a mutex that another one uses as well, one of them to write",
                         "logged texts are ASCII")

    def gen(self, rng, tier):
        def text(n=8):
            return [rng.choice(o("abcXYZ 019%.&") + [228, 252, 223]) for _ in range(rng.randint(0, n))]

        def digits(n):
            return [int(c) for c in str(rng.randrange(10 ** rng.randint(1, n)))]

        def byts(n):
            return [rng.randrange(256) for _ in range(rng.randint(0, n))]

        def day():
            return rng.randint(-700000, 2900000)

        def ms():
            return rng.randrange(86400000)
        doc = "<%s>" % "a" + "".join(rng.choice(["<b/>", "<c d='e'>x</c>", "t", "&lt;"]) for _ in range(4)) + "</a>"
        calls = [
            lambda: ["set", text()], lambda: ["app", text()], lambda: ["num", 0, digits(9)], lambda: ["up"], lambda: ["low"], lambda: ["trim"],
            lambda: ["rep", [rng.choice(o("abc0"))], text(3)], lambda: ["get"], lambda: ["gcopy"],
            lambda: ["sub", 0, rng.randint(0, 9)],
            lambda: ["put", [rng.choice(o("aho"))], rng.randint(1, 9)], lambda: ["del", [rng.choice(o("aho"))]], lambda: ["look", [rng.choice(o("aho"))]],
            lambda: ["roman", rng.randint(0, 3999)], lambda: ["hex", 0, digits(17)], lambda: ["toint", o(str(rng.randint(-10 ** 9, 10 ** 9)))],
            lambda: ["toint", o("12x")], lambda: ["dbl", 0, rng.randint(0, 9999), rng.randrange(8), 3, rng.randint(1, 3), rng.randint(0, 1)],
            lambda: ["enc64", byts(20)], lambda: ["crc", rng.randrange(65536), byts(20)],
            lambda: ["enc", rng.choice(["UTF-8", "UTF-16LE", "UTF-16BE", "Windows-1252", "MacRoman"]), text()],
            lambda: ["dec", rng.choice(["Windows-1252", "MacRoman"]), [rng.choice([rng.randint(32, 126), 228, 246, 252]) for _ in range(rng.randint(1, 12))]],
            lambda: ["urlenc", text()],
            lambda: ["date", o(rng.choice(["dd.MM.yyyy", "EEEE", "d. MMMM yy", "HH:mm:ss,SSS"])), day(), ms()], lambda: ["iso", day(), ms()],
            lambda: ["zip", byts(60) * 2], lambda: ["xml", o(doc)], lambda: ["mul", [rng.randint(-50, 50) for _ in range(4)]],
            lambda: ["gup"], lambda: ["gsub", 0, rng.randint(0, 5)], lambda: ["gfind", [rng.choice(o("abx"))]], lambda: ["glook", [rng.choice(o("aho"))]],
            lambda: ["gdate", day(), ms()], lambda: ["tr", text()], lambda: ["log", rng.randint(1, 3), o("m%d" % rng.randrange(100))], lambda: ["err"]]
        out = []
        for _ in range(150 if tier == "quick" else 4000):
            focus = rng.sample(calls, rng.choice([1, 2, 3, len(calls)]))
            prog = [[rng.choice(focus)() for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([2, 2, 3]))]
            given = text(12)
            while len(given) < 5:
                given = text(12)
            table = [[[c], rng.randint(1, 99)] for c in o("aho") if rng.random() < .7]
            # places in texts are only asked for where there is such a place
            for p in prog:
                p[:] = [c for c in p if c[0] != "sub"]
            out.append(["new", line("par", given, table, prog, rng.choice([1, 2]), 120 if tier == "quick" else 1500)])
        return out
