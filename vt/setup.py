"""setup_cmd: builds the library and every driver once, so that the checks start from a warm cache."""
import concurrent.futures as cf
import importlib
import glob
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build  # noqa: E402


def main():
    want = set()
    for p in sorted(glob.glob(os.path.join(build.HERE, "checks", "[A-Z][0-9]*.py"))):
        m = importlib.import_module("checks." + os.path.basename(p)[:-3])
        c = getattr(m, "PROP", None)
        if c is not None and c.driver:
            want.add((c.driver, c.flavour))
    for f in sorted({f for _, f in want}):
        build.lib(f)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda w: build.driver(*w), sorted(want)))
    print("built", len(want), "drivers")


if __name__ == "__main__":
    main()
