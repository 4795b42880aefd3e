"""Try a planted bug: seed.py <id>... [--tests] [--no-check]. Works on scratch copies of /repo below /tmp."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flags = [a for a in sys.argv[1:] if a.startswith("--")]
for name in [a for a in sys.argv[1:] if not a.startswith("--")]:
    folder = os.path.join(HERE, "seeded", name)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    copy = f"/tmp/seed-{name}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    run = lambda *a, **k: subprocess.run(a, **k)
    demo_copy = f"/tmp/seed-{name}-demo"
    shutil.rmtree(demo_copy, ignore_errors=True)
    shutil.copytree(folder, demo_copy, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    demo = lambda: run("bash", f"{demo_copy}/demo.sh", cwd=copy, timeout=300, capture_output=True, text=True)
    before = demo()
    applied = run("git", "-C", copy, "apply", f"{folder}/patch.diff").returncode
    after = demo()
    print(name, meta["property"], "applies" if not applied else "DOES NOT APPLY",
          "demo", before.returncode, after.returncode, "ok" if before.returncode == 0 and after.returncode else "BAD", flush=True)
    if before.returncode:
        print(before.stdout[-1500:], before.stderr[-1500:])
    if "--show" in flags:
        print(after.stdout[-800:], after.stderr[-800:])
    if "--no-check" not in flags:
        env = dict(os.environ, RV_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
        result = run(f"{HERE}/run.py", meta["property"], env=env, capture_output=True, text=True)
        lines = [l for l in result.stdout.splitlines() if l.startswith("VIOLATION")]
        print("   check exit", result.returncode, "violations", len(lines),
              "" if result.returncode == 1 else "MISSED", flush=True)
        if lines:
            print("   ", result.stdout.splitlines()[:6])
    if "--tests" in flags:
        script = open("/opt/vp/test.sh").read().replace("/repo", copy)
        script = script.replace("export LANG", f"export PYTHONPATH={copy}:{copy}/core; export LANG", 1)
        open(f"{copy}/../seed-{name}-test.sh", "w").write(script)
        out = f"/tmp/seed-{name}.json"
        run("bash", f"/tmp/seed-{name}-test.sh", out, capture_output=True)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        result = json.load(open(out))
        passed = set(result.get("passed", result.get("passes", [])))
        print("   tests missing:", sorted(stable - passed)[:10], len(passed), flush=True)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.rmtree(demo_copy, ignore_errors=True)
