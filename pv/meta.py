"""python3 -m pv.meta: writes properties.jsonl and MANIFEST.json from what the checks say of themselves."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    mods = []
    for p in sorted(glob.glob(HERE + "/checks/*.py")):
        if re.search(r"(?m)^ID = ", open(p).read()):
            mods.append(importlib.import_module("checks." + os.path.basename(p)[:-3]))
    mods.sort(key=lambda m: m.ID)
    assert len({m.ID for m in mods}) == len(mods)
    na = json.load(open(HERE + "/not_applicable.json"))
    with open(HERE + "/properties.jsonl", "w") as f:
        for m in mods:
            assert len(m.TITLE) <= 80, (m.ID, len(m.TITLE))
            assert len(re.findall(r"\.(?:\s|$)", m.STATEMENT)) <= 3, (m.ID, "too many sentences")
            f.write(json.dumps(dict(
                id=m.ID, title=m.TITLE, statement=" ".join(m.STATEMENT.split()),
                quantifier=dict(over=list(m.OVER), text=" ".join(m.QUANT.split())),
                why_tests_cant=" ".join(m.WHY.split()),
                anchors=dict(files=list(m.FILES), mechanism=[dict(name=a, where=b) for a, b in m.MECH]))) + "\n")
        for p in na:
            f.write(json.dumps(p["line"]) + "\n")
    man = dict(version=1, setup_cmd="python3 -m pv.build asan",
               hooks=dict(guard="NGX_PV_HOOKS", enable="no hooks in /repo: the checks link /verif/harness modules with "
                          "/repo's objects, wrapping nginx's pool allocator and the buffer recycler at link time",
                          source_commits=[]),
               checks=[dict(property=m.ID, quick_cmd=f"python3 -m pv.run {m.ID}",
                            thorough_cmd=f"python3 -m pv.run {m.ID} --thorough",
                            technique=m.TECHNIQUE, level="exploration", level_note=" ".join(m.NOTE.split()))
                       for m in mods],
               not_applicable=[dict(property=p["line"]["id"], reason=p["reason"]) for p in na])
    json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1)
    open(HERE + "/MANIFEST.json", "a").write("\n")
    print(f"{len(mods)} checks, {len(na)} not applicable")


main()
