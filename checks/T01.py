from vt.core import Prop, line

LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
DAY = 86400000


def number(y, m, d):
    """Day number by counting leap years."""
    b = y - 1
    n = 365 * y + (b // 4 - b // 100 + b // 400)
    for i in range(m):
        n += LEN[i] + (1 if i == 1 and (y % 4 == 0 and y % 100 or y % 400 == 0) else 0)
    return n + d - 1 - 719162 - 365


class PROP(Prop):
    id = "T01"
    driver = "date"
    trace_module = "DatesTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCDates", "MCDates_q1.cfg"), ("MCDates", "MCDates_q2.cfg"), ("MCDates", "MCDates_q3.cfg")],
          "thorough": [("MCDates", "MCDates_q1.cfg"), ("MCDates", "MCDates_q2.cfg"), ("MCDates", "MCDates_q3.cfg"),
                       ("MCDates", "MCDates_all.cfg")]}
    walk_len = 200
    assumptions = ("local time is UTC in the library; years from -100000 to 100000",)

    def gen(self, rng, tier):
        out = []
        ms = lambda: rng.choice([0, 1, 999, 1000, 59999, 60000, 3599999, 3600000, 43199999, 43200000, DAY - 1, rng.randrange(DAY)])

        def look(n):
            return [line("set", n, ms()), line("fields")]
        # the ends of months in chosen years, and the days around the ends of centuries
        years = [0, 1, 4, 99, 100, 101, 399, 400, 1582, 1600, 1601, 1700, 1752, 1800, 1900, 1901, 1969, 1970, 1971, 1972, 2000, 2001, 2023,
                 2024, 2038, 2100, 2200, 2300, 2400, 9999, -1, -4, -100, -400, -401, 12000]
        years += [rng.randint(-3000, 9999) for _ in range(30 if tier == "quick" else 2000)]
        for y in years:
            s = ["new"]
            for m in range(12):
                n = number(y, m, 1)
                s += look(n) + look(n - 1)
                if 1 <= y <= 9999:
                    s.append(line("text"))
                if y >= 0:
                    d = rng.randint(1, 28)
                    s += [line("day", y, m, d), line("fields")]
                    s += [line("moment", y, m, d, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999)),
                          line("fields")]
            s += look(number(y, 1, 28)) + look(number(y, 1, 28) + 1) + look(number(y + 1, 0, 1) - 1)
            out.append(s)
        # months and days beyond the year
        for y in [0, 1999, 2000] + [rng.randint(0, 9999) for _ in range(2 if tier == "quick" else 50)]:
            s = ["new"]
            for m in range(49):
                for d in (0, 1, 2, 31, 366):
                    s += [line("day", y, m, d), line("fields")]
                s += [line("moment", y, m, 1, 0, 0, 0, 0), line("fields"), line("moment", y, m, 0, 24, 60, 60, 1000), line("fields")]
            out.append(s)
        for _ in range(20 if tier == "quick" else 1000):
            s = ["new"]
            for _ in range(40):
                n = rng.choice([rng.randint(-1000, 1000), rng.randint(-800000, 2900000), rng.randint(-36000000, 36000000)])
                op = rng.choice(["set", "set", "settime", "day", "moment", "ns", "compare", "empty"])
                if op in ("set", "settime"):
                    s.append(line(op, n, ms()))
                elif op == "day":
                    # beyond the year and the month
                    s.append(line("day", rng.randint(0, 3000), rng.randint(0, 40), rng.randint(0, 800)))
                elif op == "moment":
                    s.append(line("moment", rng.choice([1970, 2000, rng.randint(0, 4000)]), rng.randint(0, 11), rng.randint(1, 31), rng.choice([0, 23, 24, 50, 1000]),
                                  rng.choice([0, 59, 60, 2000]), rng.choice([0, 59, 60, 50000]), rng.choice([0, 999, 1000, 65000])))
                elif op == "ns":
                    s.append(line("ns", rng.choice([0, 1, -1, 86399, 86400, -86400, -31622400, rng.randint(-2000000000, 2000000000)]), rng.randrange(8)))
                elif op == "empty":
                    s += ["empty", line("set", n, ms())]
                else:
                    k, m = rng.randint(-40000, 40000), ms()
                    s.append(line("set", k, m))
                    for u in ((k, m), (k, m + 1), (k, m - 1), (k + 1, m), (k - 1, m), (-k, m), (n, ms()), (k + 25, m), (k + 50, m)):
                        s.append(line("compare", u[0] + u[1] // DAY, u[1] % DAY))
                s.append(line("fields"))
            out.append(s)
        return out
