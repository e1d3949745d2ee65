"""The list of properties and of the checks that decide them. Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
TECH = "TLA+ specification checked with TLC; its behaviours replayed into the code, recorded traces validated by TLC"
NOTE = ("Bounded model checking of the specification (exhaustive within the printed bounds); every transition of the "
        "bounded instance is driven through the real code, plus seeded longer behaviours, and each recorded "
        "execution is checked step by step against the specification. Not a proof for unbounded inputs.")


def prop(id, title, statement, over, text, why, files, mechanism, state=(), technique=TECH, note=NOTE, claim=True,
         reason=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=list(state), technique=technique, note=note, claim=claim, reason=reason,
                  level=level))


def m(name, where):
    return dict(name=name, where=where)


exec(open(os.path.join(HERE, "catalog_props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = dict(files=p["files"], mechanism=p["mechanism"])
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=a)) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 -m vt.core %s --tier quick" % p["id"],
                   thorough_cmd="python3 -m vt.core %s --tier thorough" % p["id"],
                   technique=p["technique"], level=p["level"], level_note=p["note"])
              for p in P if p["claim"]]
    man = dict(version=1, setup_cmd="python3 -m vt.setup",
               hooks=dict(guard="JM_VERIF", enable="vt/build.py compiles /repo's sources with -DJM_VERIF (no hook "
                          "was needed so far: the define changes nothing)", source_commits=[]),
               checks=checks,
               not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in P if not p["claim"]],
               notes="Specifications in spec/ (TLA+, TLC). Drivers in drivers/, checks in checks/, runner in vt/. "
                     "Replay a counterexample with: python3 -m vt.core <ID> --replay <path>. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
