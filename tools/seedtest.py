"""Validate planted bugs (development tool; no check uses it).

  python3 tools/seedtest.py [--tests] [--all-checks] [-j N] [ID...]

For each /verif/seeded/<ID>: demo on the unchanged tree, patch, demo, the property's quick check, optionally the stable tests. Each runs on
a copy of /repo which stands in for /repo in a mount namespace of its own.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''
mount --bind %(w)s/repo /repo && mount --bind %(w)s/verif /verif || exit 99
cd /repo
bash %(w)s/seed/demo.sh >%(w)s/d0 2>&1; echo demo0=$?
git apply %(w)s/seed/patch.diff; echo apply=$?
bash /opt/vp/build.sh >%(w)s/b 2>&1; echo build=$?
timeout 300 bash %(w)s/seed/demo.sh >%(w)s/d1 2>&1; echo demo1=$?
cd /verif
for c in %(checks)s; do VERIF_SEED=1 VERIF_TIER=quick bash run.sh $c >%(w)s/c.$c 2>&1; echo check.$c=$?.$(grep -c "^VIOLATION property=$c " %(w)s/c.$c); done
if [ -n "%(tests)s" ]; then OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 bash /opt/vp/test.sh %(w)s/t.json >%(w)s/t.log 2>&1; fi
'''


def one(sid, tests, allc):
    w = tempfile.mkdtemp(prefix="st_", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        shutil.copytree(ROOT, w + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", "evidence", "replays", ".git", "__pycache__"))
        shutil.copytree(os.path.join(ROOT, "seeded", sid), w + "/seed")
        meta = json.load(open(w + "/seed/meta.json"))
        checks = " ".join("C%02d" % i for i in range(1, 53)) if allc else meta["property"]
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT % dict(w=w, checks=checks, tests="1" if tests else "")], capture_output=True, text=True)
        res = dict(l.split("=", 1) for l in r.stdout.split("\n") if "=" in l)
        bad = []
        if res.get("demo0") != "0": bad.append("DEMO-FAILS-UNPATCHED " + open(w + "/d0").read()[-400:])
        if res.get("apply") != "0" or res.get("build") != "0": bad.append("NO-APPLY/BUILD")
        if res.get("demo1") in ("0", "124"): bad.append("DEMO-PASSES-PATCHED")
        own = res.get("check." + meta["property"], "")
        if own != "1.1" and not (own.startswith("1.") and own != "1.0"):
            bad.append("MISSED (%s) " % own + open(w + "/c." + meta["property"]).read()[-300:])
        if tests:
            try:
                t = json.load(open(w + "/t.json"))
                st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(t.get("passed", []))
                miss = [x for x in st if x not in passed]
                if miss: bad.append("TESTS " + ",".join(miss))
            except Exception as e:
                bad.append("TESTS? %r" % e)
        hit = [k[6:] for k, v in res.items() if k.startswith("check.") and v.startswith("1.") and v != "1.0"]
        odd = [k[6:] + ":" + v for k, v in res.items() if k.startswith("check.") and v[:2] not in ("0.", "1.")]
        print(sid, "OK" if not bad else "", "|", " ".join(hit), "|", " ".join(odd), "|", "; ".join(bad), "|", open(w + "/d1").read().strip().split("\n")[-1][:150], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--tests" in a
    allc = "--all-checks" in a
    j = int(a[a.index("-j") + 1]) if "-j" in a else 3
    ids = [x for x in a if x.startswith("C")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(lambda s: one(s, tests, allc), ids))
