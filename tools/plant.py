#!/usr/bin/env python3
"""Try planted changes, each in its own mount namespace with copies of /repo and /verif.

usage: plant.py [--tests] [--no-check] [--jobs N] [--props C01,C02] ID...
"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLANT_REPO", "/repo")

INNER = r'''
set -u
mount --bind $W/repo /repo || exit 99
mount --bind $W/verif /verif || exit 99
cd /repo
. /opt/vp/env.sh
cp -r $W/seeded $W/s
bash $W/s/demo.sh > $W/demo_clean.txt 2>&1; echo "demo_clean $?"
git apply $W/seeded/patch.diff || { echo "apply 1"; exit 0; }
bash /opt/vp/build.sh > $W/build.txt 2>&1; echo "build $?"
bash $W/s/demo.sh > $W/demo.txt 2>&1; echo "demo_patched $?"
if [ "$TESTS" = 1 ]; then
 bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
 python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$W/t.json'))
print('tests', len(set(b['stable'])-set(t['passed'])))"
fi
cd /verif
for p in $PROPS; do
 VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick > $W/check_$p.txt 2>&1; echo "check_$p $?"
done
'''


def one(pid, tests, check, props, keep):
    d = os.path.join(V, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = meta["property"]
    W = f"/tmp/plantw/{pid}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run(["cp", "-a", R, W + "/repo"], check=True)
    os.makedirs(W + "/verif")
    subprocess.run(f"cd {V} && tar cf - --exclude=./replays --exclude=./seeded --exclude=./.git . | tar xf - -C {W}/verif", shell=True, check=True)
    os.makedirs(W + "/verif/replays", exist_ok=True)
    subprocess.run(["cp", "-r", d, W + "/seeded"], check=True)
    subprocess.run(["git", "-C", W + "/repo", "checkout", "-q", "--", "."])
    env = dict(os.environ, W=W, TESTS="1" if tests else "0", PROPS=" ".join(props or ([prop] if check else [])))
    t0 = time.time()
    r = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", INNER], capture_output=True, text=True, env=env)
    res = dict(id=pid, property=prop, t=round(time.time() - t0))
    for l in r.stdout.splitlines():
        k, v = l.split()
        res[k] = int(v)
    if r.stderr.strip():
        res["err"] = r.stderr[-300:]
    for f, k in (("demo.txt", "demo"), ("check_%s.txt" % prop, "out")):
        try:
            res[k] = open(f"{W}/{f}").read().strip().splitlines()[-1:]
        except OSError:
            pass
    ok = res.get("demo_clean") == 0 and res.get("demo_patched", 0) != 0 and res.get("build") == 0 and res.get("tests", 0) == 0
    c = res.get("check_" + prop)
    viol = any("VIOLATION property=" + prop in l for l in (res.get("out") or [])) or (os.path.exists(f"{W}/check_{prop}.txt") and "VIOLATION property=" + prop in open(f"{W}/check_{prop}.txt").read())
    print("OK    " if ok else "BAD   ", "CAUGHT" if c == 1 and viol else ("-     " if c is None else "MISSED"), json.dumps(res), flush=True)
    if not keep:
        shutil.rmtree(W, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs, props = 2, None
    if "--jobs" in args:
        i = args.index("--jobs"); jobs = int(args[i + 1]); del args[i:i + 2]
    if "--props" in args:
        i = args.index("--props"); props = args[i + 1].split(","); del args[i:i + 2]
    ids = [a for a in args if not a.startswith("-")]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda p: one(p, "--tests" in args, "--no-check" not in args, props, "--keep" in args), ids))


main()
