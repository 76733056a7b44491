"""tryseeds.py [ID...]: run each planted bug's property check against a scratch
copy of /repo with the bug applied, and say whether it was caught."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for s in ids:
    d = os.path.join(V, "seeded", s)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        subprocess.run(["git", "-C", w + "/r", "apply", os.path.join(d, "patch.diff")], check=True)
        t = time.time()
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), meta["property"]], env=dict(os.environ, VF_REPO=w + "/r"), capture_output=True, text=True)
        hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        print(f"{s:32} {meta['property']} {'caught' if r.returncode == 1 and hit else f'MISSED (exit {r.returncode})'} {time.time() - t:.0f}s", flush=True)
    finally:
        shutil.rmtree(w)
