"""mkseed.py DEF.py...: build the seed, verify in a scratch copy"""
import sys, os, subprocess, json, shutil, runpy
ok_all = True
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    sid = os.path.basename(f)[:-3]
    cp = f"/tmp/seedcopy-{sid}"
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", cp], check=True)
    subprocess.run(["git", "-C", cp, "checkout", "-q", "--", "."], check=True)
    for file, old, new in d["EDITS"]:
        p = f"{cp}/modepy/{file}"; s = open(p).read()
        assert s.count(old) == 1, (sid, file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = f"/verif/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(["git", "-C", cp, "diff"], capture_output=True, text=True, check=True).stdout
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(d["DEMO"])
    open(f"{out}/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
    r0 = subprocess.run([f"{out}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run([f"{out}/demo.sh"], cwd=cp, capture_output=True, text=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    env = dict(os.environ, PYTHONPATH=cp)
    subprocess.run(f". /opt/vp/env.sh; cd {cp}; export PYTHONPATH={cp}; python -m pytest -q -p no:cacheprovider --doctest-modules --timeout=600 --continue-on-collection-errors -n 4 --dist worksteal -o junit_family=xunit2 --junitxml={cp}/junit.xml; python /opt/vp/results.py {cp}/out.json junit:{cp}/junit.xml", shell=True, capture_output=True, env=env, executable="/bin/bash")
    res = json.load(open(f"{cp}/out.json"))
    print(sid, "clean", r0.returncode, "patched", r1.returncode, r1.stderr.strip().splitlines()[-1:] , r0.stderr.strip().splitlines()[-1:], flush=True)
    passed = set(res.get("passed", []) if isinstance(res.get("passed"), list) else [k for k, x in res.items() if x == "passed"])
    miss = sorted(base - passed) if base else "?"
    print("   ", "missing", len(miss), miss[:5], "OK" if r0.returncode == 0 and r1.returncode and not miss else "BAD", flush=True)
    shutil.rmtree(cp, ignore_errors=True)
