"""Runs TLC: model checking a bounded instance, or validating a recorded trace."""
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    import glob
    return ":".join([JARS] + sorted(j for j in glob.glob("/opt/veriftools/tla/*.jar") if j != JARS))


class Result:
    pass


def run(module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=(), coverage=False):
    """TLC on spec/<module>.tla with spec/<cfg>. Returns Result(ok, out, states, distinct, diameter)."""
    meta = tempfile.mkdtemp(prefix="vt-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", _classpath(), "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg] + list(extra)
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += [module + ".tla"]
    r = Result()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, text=True, capture_output=True, timeout=timeout,
                           errors="replace")
        r.out = p.stdout + p.stderr
        r.rc = p.returncode
        r.timeout = False
    except subprocess.TimeoutExpired as ex:
        r.out = (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        r.rc = -1
        r.timeout = True
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", r.out, re.M)
    r.states, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
    r.diameter = int(m[-1]) if m else 0
    r.ok = r.rc == 0 and "Model checking completed. No error has been found" in r.out
    m = re.search(r'<<"REJECTED", (\d+)', r.out)
    r.rejected = int(m.group(1)) if m else None
    # A trace step TLC could not even evaluate (value outside the specified shape) is a rejection as well.
    r.evalerror = (not r.ok and r.rejected is None and not r.timeout)
    return r


def printed(out, tag):
    """Strings printed by the specification as PrintT("<tag>...")."""
    pre = '"' + tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            yield line[len(pre):-1]
