from vt.core import Prop, line

# letters with and without case, digits, blanks, separators, characters outside ASCII / Latin-1
ALPHA = [97, 98, 65, 66, 122, 90, 48, 57, 32, 9, 44, 228, 196, 252, 220, 8364, 0x4e2d, 0xffff]


class StrProp(Prop):
    driver = "str"
    trace_module = "StrTrace"
    NV = 4

    def text(self, rng, n=None, alpha=None):
        if n is None:
            n = rng.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 40])
        alpha = alpha or rng.choice([ALPHA, [97, 98], [97, 65, 32], ALPHA[:11]])
        return [rng.choice(alpha) for _ in range(n)]

    def v(self, rng):
        return rng.randint(1, self.NV)

    def vast(self, rng, alpha=(97, 97, 98, 32, 65, 228, 8364)):
        """A text of more characters than two bytes count."""
        n = 65536 + rng.randint(0, 300)
        block = [rng.choice(alpha) for _ in range(rng.choice([7, 61, 997]))]
        return (block * (n // len(block) + 1))[:n]

    def lit(self, rng, v, t):
        k = "lit"
        if t and all(0 < c < 128 for c in t) and rng.random() < 0.3:
            k = rng.choice(["litc", "litn"])
        return line(k, v, t)

    def edit(self, rng, ln):
        """One edit; ln holds estimated lengths, only to choose interesting positions."""
        v, w = self.v(rng), self.v(rng)
        n = ln[v]
        i = rng.choice([0, n, n - 1, n + 1, -1, rng.randint(0, max(n, 1)), rng.randint(0, max(n, 1))])
        c = rng.choice(ALPHA)
        op = rng.choice(["lit", "assign", "copy", "append", "pluseq", "shl", "appendc", "appendc", "plus", "insertc",
                         "inserts", "inserts", "deletec", "deleter", "setc", "setc", "clear", "zero", "sub", "tail",
                         "lower", "upper", "trim", "reverse", "replc", "repls"])
        if op == "lit":
            t = self.text(rng)
            ln[v] = len(t)
            return self.lit(rng, v, t)
        if op in ("assign", "copy"):
            ln[v] = ln[w]
            return line(op, v, w)
        if op in ("append", "pluseq", "shl"):
            if ln[v] + ln[w] > 150:
                ln[v] = 0
                return line("clear", v)
            ln[v] += ln[w]
            return line(op, v, w)
        if op == "appendc":
            ln[v] += 1
            return line(op, v, c)
        if op == "plus":
            x = self.v(rng)
            if ln[w] + ln[x] > 150:
                return line("zero", v) if ln.__setitem__(v, 0) is None else ""
            ln[v] = ln[w] + ln[x]
            return line(op, v, w, x)
        if op == "insertc":
            ln[v] += 1 if 0 <= i <= n else 0
            return line(op, v, i, c)
        if op == "inserts":
            if n + ln[w] > 150:
                ln[v] = 0
                return line("clear", v)
            ln[v] += ln[w] if 0 <= i <= n else 0
            return line(op, v, i, w)
        if op == "deletec":
            ln[v] -= 1 if 0 <= i < n else 0
            return line(op, v, i)
        if op == "deleter":
            k = rng.choice([0, 1, 2, n, 3, n + 5])
            ln[v] = i + max(0, n - i - k) if 0 <= i <= n else n
            return line(op, v, i, k)
        if op == "setc":
            return line(op, v, i, c)
        if op in ("clear", "zero"):
            ln[v] = 0
            return line(op, v)
        if op == "sub":
            b, e = rng.randint(-1, ln[w] + 1), rng.randint(-1, ln[w] + 1)
            ln[v] = max(0, min(e, ln[w]) - max(b, 0))
            return line(op, v, w, b, e)
        if op == "tail":
            b = rng.randint(-1, ln[w] + 1)
            ln[v] = max(0, ln[w] - max(b, 0))
            return line(op, v, w, b)
        if op == "replc":
            ln[v] = ln[w]
            return line(op, v, w, c, rng.choice(ALPHA))
        if op == "repls":
            a, b = self.v(rng), self.v(rng)
            if ln[b] > 10 or ln[w] > 60:
                return line("get", v, i)
            ln[v] = ln[w]
            return line(op, v, w, a, b)
        ln[v] = ln[w]
        return line(op, v, w)
