#!/usr/bin/env python3
"""mkbug.py ID: confirm the planted bug in /verif/seeded/ID from edit.py beside it (dev use).

edit.json: [[path, old, new], ...] relative to the repository; writes patch.diff, checks that the
demonstration passes without and fails with the change and that the stable tests still pass.
"""
import json, os, shutil, subprocess, sys
from pathlib import Path
bid = sys.argv[1]
V = Path(__file__).resolve().parent.parent
REPO = os.environ.get("ACV_REPO", "/repo")
S = V / "seeded" / bid
W = Path(f"/tmp/bug-{bid}")
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f"rm -rf /tmp/bug-{bid}")
W.mkdir()
sh(f"git -C {REPO} archive HEAD | tar -x -C {W}")
sh("git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm base", cwd=W)
env = dict(os.environ)
def demo():
    r = subprocess.run(["bash", str(S / "demo.sh")], cwd=W, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]
r0 = demo()
if (S / "edit.json").exists():
    for path, old, new in json.loads((S / "edit.json").read_text()):
        p = W / path
        t = p.read_text()
        if t.count(old) != 1:
            print("EDIT does not match once:", path, t.count(old)); sys.exit(1)
        p.write_text(t.replace(old, new))
    (S / "patch.diff").write_text(sh("git diff", cwd=W).stdout)
    (S / "edit.json").unlink()
else:
    print(sh(f"git apply {S}/patch.diff", cwd=W))
r1 = demo()
print("demo clean", r0[0], r0[1] if r0[0] else "", "| with bug", r1[0], [l for l in r1[1].splitlines() if "placer" not in l])
# tests
if "--notest" not in sys.argv:
    b = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    t = Path("/opt/vp/test.sh").read_text().replace("/opt/vp/reports", f"/tmp/rep-{bid}").replace("/repo", str(W)).replace("PYTHONPATH=/opt/vp/plugins", f"PYTHONPATH=/opt/vp/plugins:{W}/src")
    t = t.replace(" -n 8", f" -n {os.environ.get('NPROC', '8')}")
    (W / ".t.sh").write_text(t)
    r = sh(f"bash .t.sh {W}/.out.json", cwd=W)
    o = json.loads((W / ".out.json").read_text())
    def names(x):
        for k in ("passed", "stable", "tests"):
            if k in x:
                return set(x[k]) if not isinstance(x[k], dict) else {k2 for k2, v in x[k].items() if v in ("passed", True)}
    miss = sorted(names(b) - names(o))
    print("tests missing:", len(miss), miss[:5])
    sh(f"rm -rf /tmp/rep-{bid}")
if "--check" in sys.argv:
    prop = json.loads((S / "meta.json").read_text())["property"]
    props = [prop] + [a for a in sys.argv[2:] if not a.startswith("--")]
    for prop in props:
        r = sh(f"ACV_REPO={W} /opt/venv/bin/python {V}/harness/check.py {prop}", cwd=V)
        print("CHECK", prop, r.returncode, r.stdout[-700:], r.stderr[-300:] if r.returncode not in (0, 1) else "")
print(sh("git diff --stat", cwd=W).stdout)
sh(f"rm -rf /tmp/bug-{bid}")
