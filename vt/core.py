"""Runs one property's check: model-check the specification, drive the real code along its behaviours,
and validate every recorded execution against the specification."""
import argparse
import collections
import concurrent.futures as cf
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build, tlc  # noqa: E402

HERE = build.HERE
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
CPUS = os.cpu_count() or 4
ASAN = ("detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=1:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:max_allocation_size_mb=4096:handle_abort=0")


def tok(v):
    """A JSON value as a script token (no blanks)."""
    return json.dumps(v, separators=(",", ":"))


def line(op, *args):
    return " ".join([op] + [tok(a) for a in args])


# ---------------------------------------------------------------- behaviours of the specification

def transitions(out):
    """Every transition TLC generated for a bounded instance: (state, op, state')."""
    seen = set()
    for s in tlc.printed(out, "T@"):
        if s not in seen:
            seen.add(s)
            a, o, b = s.split("~")
            yield a, o.replace('\\"', '"'), b


def inits(out):
    return sorted(set(tlc.printed(out, "I@")))


def cover(trans, init_states, maxlen=60, limit=None, rng=None):
    """Walks through the state graph that take every transition at least once.

    Returns lists of ops; every walk starts in an initial state."""
    succ = collections.defaultdict(list)
    for a, o, b in trans:
        succ[a].append((o, b))
    todo = {a: list(range(len(v))) for a, v in succ.items()}
    left = sum(len(v) for v in todo.values())
    total = left
    # shortest path tree from the initial states
    parent = {}
    dq = collections.deque()
    for i in init_states:
        parent[i] = None
        dq.append(i)
    order = []
    while dq:
        a = dq.popleft()
        order.append(a)
        for k, (o, b) in enumerate(succ[a]):
            if b not in parent:
                parent[b] = (a, k)
                dq.append(b)
    walks = []
    done = 0

    def path_to(a):
        p = []
        while parent[a] is not None:
            a, k = parent[a]
            p.append((a, k))
        return p[::-1]

    def near(a, depth=4):
        """A short path from a to some state with an untaken transition."""
        q = collections.deque([(a, ())])
        vis = {a}
        while q:
            s, p = q.popleft()
            if todo.get(s):
                return list(p)
            if len(p) >= depth:
                continue
            for k, (o, b) in enumerate(succ[s]):
                if b not in vis:
                    vis.add(b)
                    q.append((b, p + ((s, k),)))
            if len(vis) > 400:
                return None
        return None
    # deepest states first: their access paths cover the shallow ones
    for a in reversed(order):
        while todo.get(a):
            steps = path_to(a)
            cur = a
            fresh = len(steps)
            while len(steps) < maxlen or len(steps) == fresh:
                if todo.get(cur):
                    k = todo[cur][-1]
                    steps.append((cur, k))
                    todo[cur].pop()
                    cur = succ[cur][k][1]
                    continue
                p = near(cur)
                if p is None:
                    break
                steps += p
                for s, k in p:
                    cur = succ[s][k][1]
            for s, k in steps:
                if k in todo.get(s, ()):
                    todo[s].remove(k)
            walks.append([succ[s][k][0] for s, k in steps])
            if limit and len(walks) >= limit:
                return walks, total, total - sum(len(v) for v in todo.values())
    return walks, total, total - sum(len(v) for v in todo.values())


def op_line(opjson):
    o = json.loads(opjson)
    return line(o[0], *o[1:])


class Illegal(RuntimeError):
    pass


# ---------------------------------------------------------------- one property

class Prop:
    id = None
    driver = None
    flavour = "asan"
    trace_module = None
    trace_cfg = None
    mc = ()              # [(module, cfg)] for every tier, or dict tier -> list
    level = "model_checking"
    assumptions = ()
    shards = CPUS
    driver_timeout = 300
    tlc_timeout = 800
    walk_len = 60
    walk_limit = None
    new_line = "new"
    env = {}
    min_ops = 1
    shrink = True

    # -- to override
    def gen(self, rng, tier):
        """Scenarios (lists of script lines) beyond the bounded instance."""
        return []

    def walk_scenario(self, ops, module):
        return [self.new_line] + [op_line(o) for o in ops]

    def event(self, ev):
        """Hook: rewrite a recorded event before validation (pure re-encoding)."""
        return ev

    def prepare(self, workdir):
        """Hook: environment for the driver (scratch directories...)."""
        return {}

    def known(self):
        """Known findings probes: list of (name, scenario, describe)."""
        return []

    def mc_list(self, tier):
        if isinstance(self.mc, dict):
            return self.mc[tier]
        return list(self.mc)


class Runner:
    def __init__(self, prop, tier, seed):
        self.p = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vt-%s-" % prop.id)
        self.notes = []
        self.exe = None

    # -- driver + validation of one script
    def record(self, lines, tag, timeout=None):
        base = os.path.join(self.work, tag)
        with open(base + ".script", "w") as f:
            f.write("\n".join(lines) + "\n")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ASAN
        scratch = base + ".scratch"
        os.makedirs(scratch, exist_ok=True)
        e["VT_SCRATCH"] = scratch
        e["HOME"] = scratch
        e["TMPDIR"] = scratch
        e["LC_ALL"] = "C.UTF-8"
        e.update(self.p.env)
        e.update(self.p.prepare(scratch) or {})
        cmd = [self.exe, base + ".script", base + ".raw"]
        try:
            pr = subprocess.run(cmd, env=e, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.PIPE, timeout=timeout or self.p.driver_timeout)
            rc, err = pr.returncode, pr.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as ex:
            rc, err = -14, "timeout " + str(ex.timeout)
        evs = []
        if os.path.exists(base + ".raw"):
            with open(base + ".raw", errors="replace") as f:
                for ln in f:
                    try:
                        evs.append(self.p.event(json.loads(ln)))
                    except ValueError:
                        break
        with open(base + ".ndjson", "w") as f:
            for ev in evs:
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, err, evs, base + ".ndjson"

    def validate(self, trace, n, strict=False):
        """None if the specification accepts the trace, else (1-based index of the refused event, detail)."""
        if n == 0:
            return None
        r = tlc.run(self.p.trace_module, self.p.trace_cfg, env={"TRACE": trace}, timeout=self.p.tlc_timeout)
        ill = [int(x) for x in re.findall(r'<<"ILLEGAL", (\d+)>>', r.out)]
        if ill:
            with open(trace) as f:
                call = f.read().split("\n")[ill[0] - 1][:300]
        if strict and ill:
            raise Illegal("the script makes a call that is not allowed there: event %d, %s" % (ill[0], call))
        if r.ok:
            if ill:
                self.notes.append("a script makes a call that is not allowed: event %d, %s" % (ill[0], call))
                print("NOTE: " + self.notes[-1])
            return None
        if r.timeout:
            raise RuntimeError("TLC timed out validating a trace of %d events" % n)
        if r.rejected is not None:
            if r.rejected in ill:
                raise Illegal("the script makes a call that is not allowed there: event %d, %s" % (r.rejected, call))
            m = re.search(r'<<\s*"STATE".*?(?=^Error)', r.out, re.S | re.M)
            h = re.search(r'<<\s*"HISTORY",.*?(?=^<<\s*"[A-Z])', r.out, re.S | re.M)
            return r.rejected, (re.sub(r"\s+", " ", (h.group(0) if h else "") + (m.group(0) if m else "")))[:3000]
        if "StackOverflowError" in r.out or "OutOfMemoryError" in r.out:
            raise RuntimeError("TLC ran out of memory:\n" + r.out[-500:])
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
        if not ls:
            raise RuntimeError("TLC failed:\n" + r.out[-3000:])
        err = re.findall(r"^Error: .*(?:\n(?!Error).*){0,6}", r.out, re.M)
        return int(ls[-1]), ("value outside the specified shape: " + " ".join(err))[:2000]

    def run_script(self, lines, tag, strict=False):
        """Runs a script; returns None or a violation dict (index into lines, reason)."""
        rc, err, evs, trace = self.record(lines, tag)
        if rc == 2 and "unknown op" in err:
            raise RuntimeError(err)
        v = self.validate(trace, len(evs), strict)
        os.path.exists(trace) and os.unlink(trace)
        self.n_events += len(evs)
        if v is not None:
            i = v[0] - 1
            return dict(index=i, why="the specification refuses this step", detail=v[1],
                        event=evs[i] if i < len(evs) else None)
        if len(evs) < len(lines):
            return dict(index=len(evs), why="the call did not return (driver ended with %d)" % rc,
                        detail=err[-3000:], event=None)
        if rc != 0:
            return dict(index=len(lines) - 1, why="the process ended abnormally (%d) after the last call" % rc,
                        detail=err[-3000:], event=None)
        return None

    def confirm(self, scen_lines, all_lines, k):
        """Re-runs a rejection; returns (lines, violation) or None if it does not come back."""
        for lines in (scen_lines, all_lines):
            if not lines:
                continue
            for t in range(2):
                v = self.run_script(lines, "confirm%d-%d-%d" % (k, len(lines), t))
                if v is not None:
                    return lines[: v["index"] + 1], v
        return None

    def minimise(self, lines, v, budget=60):
        """Drops calls that are not needed for the refusal."""
        t = time.time()
        n = max(1, (len(lines) - 2) // 2)
        k = 0
        while n >= 1 and time.time() - t < budget:
            i = 1
            changed = False
            while i < len(lines) - 1 and time.time() - t < budget:
                cand = lines[:i] + lines[i + n:] if i + n < len(lines) else lines[:i] + lines[-1:]
                if len(cand) == len(lines):
                    break
                k += 1
                try:
                    w = self.run_script(cand, "min%d" % k, True)
                except RuntimeError:   # includes Illegal: the shorter script is no longer a fair one
                    w = None
                if w is not None and w["index"] == len(cand) - 1 and w["why"][:20] == v["why"][:20]:
                    lines, v = cand, w
                    changed = True
                else:
                    i += n
            if n == 1 and not changed:
                break
            n = n // 2 if n > 1 else (1 if changed else 0)
        return lines, v

    # -- the whole check
    def run(self):
        p = self.p
        self.n_events = 0
        rng = random.Random("%s-%d" % (p.id, self.seed))
        mcs = p.mc_list(self.tier)
        states = trans_total = 0
        covered = 0
        walks = []
        mcinfo = []

        def one_mc(m):
            mod, cfg = m[0], m[1]
            return m, tlc.run(mod, cfg, workers=2, heap="6g", timeout=840)
        with cf.ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
            futs = [ex.submit(one_mc, m) for m in mcs]
            if p.driver:
                self.exe = build.driver(p.driver, p.flavour)
            for f in futs:
                m, r = f.result()
                if not r.ok:
                    print("SPEC-ERROR %s/%s\n%s" % (m[0], m[1], r.out[-4000:]))
                    return 2
                states += r.distinct
                trans_total += r.states
                tr = list(transitions(r.out))
                info = dict(module=m[0], cfg=m[1], distinct_states=r.distinct, states_generated=r.states,
                            depth=r.diameter)
                if tr:
                    ws, tot, cov = cover(tr, inits(r.out), p.walk_len, p.walk_limit)
                    covered += cov
                    info.update(spec_transitions=tot, transitions_driven_through_code=cov, walks=len(ws))
                    walks += [p.walk_scenario(w, m[0]) for w in ws]
                mcinfo.append(info)
        scenarios = [("spec", w) for w in walks] + [("gen", s) for s in p.gen(rng, self.tier)]
        if not scenarios:
            print("SPEC-ERROR no scenario")
            return 2
        # balanced shards
        nsh = max(1, min(p.shards, len(scenarios)))
        shards = [[] for _ in range(nsh)]
        load = [0] * nsh
        for s in sorted(scenarios, key=lambda s: -sum(map(len, s[1]))):
            i = load.index(min(load))
            shards[i].append(s)
            load[i] += sum(map(len, s[1])) + 20

        def one_shard(i):
            lines = []
            starts = []
            for kind, s in shards[i]:
                starts.append(len(lines))
                lines += s
            return i, lines, starts, self.run_script(lines, "shard%d" % i)
        violation = None
        unconfirmed = 0
        with cf.ThreadPoolExecutor(CPUS) as ex:
            results = list(ex.map(one_shard, range(nsh)))
        for i, lines, starts, v in results:
            if v is None or violation:
                continue
            k = max(j for j, s in enumerate(starts) if s <= v["index"])
            scen = lines[starts[k]: v["index"] + 1]
            c = self.confirm(scen, lines[: v["index"] + 1], i)
            if c is None:
                unconfirmed += 1
                self.notes.append("a refusal did not come back on re-execution: %s" % v["why"])
                continue
            if p.shrink:
                c = self.minimise(*c, budget=60 if "(-14)" not in c[1]["why"] and "with -14" not in c[1]["why"] else 0)
            violation = c
        samples = []
        for kind in ("spec", "gen"):
            ss = [s for k, s in scenarios if k == kind]
            if ss:
                samples.append({"kind": kind, "script": [x[:200] for x in ss[len(ss) // 2][:25]]})
        distinct = len({"\n".join(s) for _, s in scenarios if len(s) > p.min_ops})
        cov = dict(states=states, transitions=trans_total, traces_validated_against_impl=len(scenarios),
                   samples=samples, events_validated=self.n_events, distinct_nontrivial_scenarios=distinct,
                   scenarios_from_spec=len(walks), spec_transitions_driven_through_code=covered,
                   model_checking_runs=mcinfo)
        known_fail = self.known_findings()
        if self.notes:
            cov["notes"] = self.notes
        self.evidence(cov, 1 if violation else 0)
        shutil.rmtree(self.work, ignore_errors=True)
        if violation:
            lines, v = violation
            path = self.save_replay(lines, v)
            print("refused: %s" % v["why"])
            print("last call: %s" % lines[-1][:500])
            if v["event"]:
                print("recorded: %s" % json.dumps(v["event"])[:1500])
            print(v["detail"][:1500])
            print("VIOLATION property=%s replay=%s" % (p.id, path))
            return 1
        if known_fail:
            return 1
        print("OK property=%s: %d spec states, %d executions of the code validated (%d events), %.0f s" % (
            p.id, states, len(scenarios), self.n_events, time.time() - self.t0))
        return 0

    def known_findings(self):
        """Replays each listed finding; reports it while it still fails."""
        for name, lines, what in self.p.known():
            listed = listed_findings(self.p.id)
            v = self.run_script(lines, "known-" + name)
            if v is None:
                self.notes.append("listed finding %s no longer fails" % name)
            elif name in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.p.id, what))
            else:
                path = self.save_replay(lines, v)
                print("VIOLATION property=%s replay=%s" % (self.p.id, path))
                return True
        return False

    def save_replay(self, lines, v):
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        path = os.path.join(OUT, "replay", "%s-%d-%d.json" % (self.p.id, self.seed, os.getpid()))
        with open(path, "w") as f:
            json.dump(dict(property=self.p.id, script=lines, why=v["why"], detail=v["detail"], event=v["event"]),
                      f, indent=1)
        return path

    def evidence(self, cov, violations):
        os.makedirs(EVID, exist_ok=True)
        e = dict(property=self.p.id, tier=self.tier, seed=self.seed, level=self.p.level, coverage=cov,
                 assumptions=list(self.p.assumptions), wall_s=round(time.time() - self.t0, 2),
                 violations=violations)
        with open(os.path.join(EVID, self.p.id + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def replay(self, path):
        self.n_events = 0
        with open(path) as f:
            d = json.load(f)
        self.exe = build.driver(self.p.driver, self.p.flavour)
        v = self.run_script(d["script"], "replay")
        shutil.rmtree(self.work, ignore_errors=True)
        if v is None:
            print("the replay is accepted")
            return 0
        print("refused: %s\nlast call: %s\n%s\n%s" % (v["why"], d["script"][v["index"]][:500], v["event"],
                                                      v["detail"][:3000]))
        print("VIOLATION property=%s replay=%s" % (self.p.id, path))
        return 1


def listed_findings(pid):
    path = os.path.join(HERE, "known-findings.txt")
    out = set()
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"finding: property=(\S+) name=(\S+) ", ln)
            if m and m.group(1) == pid:
                out.add(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.property)
    r = mod.CHECK(a.tier, a.seed) if hasattr(mod, "CHECK") else Runner(mod.PROP(), a.tier, a.seed)
    try:
        rc = r.replay(a.replay) if a.replay else r.run()
    except RuntimeError as ex:
        print("CHECK-ERROR: %s" % ex)
        rc = 2
    shutil.rmtree(getattr(r, "work", "/nonexistent"), ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
