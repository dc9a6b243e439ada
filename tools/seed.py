"""Developer tool: validates the planted bugs of seeded/ (no check uses it).
  seed.py demo ID...    demo on the unchanged tree, then tests and demo with the patch, in a scratch copy
  seed.py check ID...   the property's quick check with the patch applied to /repo (undone afterwards)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed_repo"


def run(cmd, cwd=None, t=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def demo(i):
    d = f"{V}/seeded/{i}"
    run(["git", "checkout", "-q", "--", "."], S)
    rc, o = run(["bash", f"{d}/demo.sh"], S)
    if rc != 0:
        return f"demo fails on the unchanged tree\n{o[-1500:]}"
    rc, o = run(["git", "apply", f"{d}/patch.diff"], S)
    if rc != 0:
        return "patch does not apply " + o
    rc, o = run(". /opt/vp/env.sh; cd " + S + "; $CARGO test -p kuadrant-filter --no-fail-fast --offline -- --test-threads 8", S)
    if rc != 0:
        bad = [l for l in o.splitlines() if "FAILED" in l or l.startswith("error")]
        run(["git", "checkout", "-q", "--", "."], S)
        return "tests: " + "\n".join(bad[:8])
    n = sum(int(l.split(" passed")[0].split()[-1]) for l in o.splitlines() if " passed;" in l)
    rc, o = run(["bash", f"{d}/demo.sh"], S)
    run(["git", "checkout", "-q", "--", "."], S)
    if rc == 0:
        return "demo passes with the patch"
    return f"ok ({n} tests pass) " + " ".join(o.strip().splitlines()[-2:])[-160:]


def check(i):
    d = f"{V}/seeded/{i}"
    p = json.load(open(f"{d}/meta.json"))["property"]
    assert run(["git", "-C", "/repo", "status", "--short", "-uno"])[1] == ""
    rc, o = run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"])
    assert rc == 0, o
    try:
        rc, o = run([sys.executable, f"{V}/tools/run.py", p, "quick"])
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
    return f"{'CAUGHT' if rc == 1 else 'MISSED'} by {p} rc={rc} " + " | ".join(v[:2])[:300] + ("" if rc in (0, 1) else o[-1500:])


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))
    if sys.argv[1] == "demo":
        if not os.path.exists(S):
            run(["cp", "-a", "/repo", S])
        run("git fetch -q /repo && git checkout -q FETCH_HEAD", S)
    for i in ids:
        print(i, (demo if sys.argv[1] == "demo" else check)(i), flush=True)
