"""The properties and what claims them.  Generates properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level, note, state=(), observe=()):
    anchors = dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        anchors["observe_at"] = list(observe)
    anchors["hook_needed"] = None
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                         why_tests_cant=why, anchors=anchors),
                  technique=technique, level=level, note=note))


NA = []

for f in sorted(glob.glob(os.path.join(V, "tools", "props.d", "*.py"))):
    exec(open(f).read())


def main():
    have = {os.path.basename(f).split("_")[0].upper() for f in glob.glob(os.path.join(V, "checks", "c[0-9]*.py"))}
    P.sort(key=lambda d: d["p"]["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d["p"]) + "\n")
    checks, na = [], list(NA)
    for d in P:
        i = d["p"]["id"]
        if i in have:
            checks.append(dict(property=i, quick_cmd=f"python3-vt run.py {i}",
                               thorough_cmd=f"python3-vt run.py {i} --tier thorough",
                               evidence_file=f"evidence/{i}.json", technique=d["technique"], level=d["level"],
                               level_note=d["note"]))
        elif i not in {n["property"] for n in na}:
            na.append(dict(property=i, reason="no check yet"))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt run.py --setup", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")
    missing = have - {d["p"]["id"] for d in P}
    print(len(P), "properties,", len(checks), "checks", "without a property: " + str(missing) if missing else "")


main()
