"""Print the table of planted bugs for DESIGN.md, from seeded/*/meta.json and the output of seedtest.py: python3 tools/bugtable.py LOG"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hit = {}
for l in open(sys.argv[1]):
    f = l.split(" | ") if " | " in l else []
    if len(f) > 2:
        if not f[0].split(): continue
        hit[f[0].split()[0]] = f[1].strip() or "missed"
print("| Bug | Breaks | Needs | Caught by |\n|---|---|---|---|")
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, s)))
    print("| %s | %s | %s | %s |" % (s, m["what_it_breaks"], m["needs"], hit.get(s, "?")))
