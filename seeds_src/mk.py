#!/usr/bin/env python3
"""mk.py [ID..]: writes /verif/seeded/<id> from seeds.py and confirms it in a scratch copy; mk.py --catch [ID..] runs the checks against it."""
import sys, os, subprocess, shutil, json
V = "/verif"; S = V + "/seeds_src"; W = "/tmp/seedwt"
sys.path.insert(0, S)
from seeds import SEEDS
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = sys.argv[1:]
catch = "--catch" in args
args = [a for a in args if not a.startswith("--")]
ids = args or ([i for i in SEEDS if os.path.exists(f'{V}/seeded/{i}')] if catch else list(SEEDS))
def edit(root, s):
    for f, old, new in s["edits"]:
        p = f"{root}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
if not catch:
    if not os.path.exists(W): sh(f"cp -a /repo {W}")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=W)
for i in ids:
    sh(f"rm -rf {W}/crates/rerecast/tests/reference_data/chainboom")
    s = SEEDS[i]; d = f"{V}/seeded/{i}"
    if catch:
        r = sh(f"git apply {d}/patch.diff", cwd="/repo"); assert r.returncode == 0, r.stdout
        try:
            for p in s.get("checks", [s["prop"]]):
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py {p}", cwd=V)
                lines = [l for l in r.stdout.split("\n") if l.startswith(("VIOL", "OK", "FAILED OBL", "FAILING", "KNOWN"))]
                print(i, p, r.returncode, "\n   ".join(l[:260] for l in lines[-4:]), flush=True)
        finally: sh("git checkout -- .", cwd="/repo")
        continue
    sh("git checkout -- crates/*/src", cwd=W)
    try: edit(W, s)
    except AssertionError as e: print(i, "EDIT", e); continue
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh("git diff -- crates/*/src", cwd=W).stdout)
    if s.get("kind") == "avian":
        shutil.copy(f"{S}/demo_avian.sh", f"{d}/demo.sh"); shutil.copy(f"{V}/harness_avian/Cargo.lock", f"{d}/lock.txt")
        shutil.copytree(f"{V}/harness_avian/stubs", f"{d}/stubs", dirs_exist_ok=True)
        shutil.copy(f"{S}/common_avian.rs", f"{d}/common.rs")
        open(f"{d}/main.rs", "w").write('#[path = "@REPO@/crates/avian_rerecast/src/collider_to_trimesh.rs"]\n#[allow(warnings)]\nmod collider_to_trimesh;\nmod common;\nuse common::*;\n' + s["main"])
    else:
        shutil.copy(f"{S}/demo.sh", d); shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/lock.txt")
        shutil.copy(f"{S}/common.rs", d)
        open(f"{d}/main.rs", "w").write("mod common;\nuse common::*;\n" + s["main"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # patched: crate tests, then demo
    t = sh("cargo test --offline -q -p rerecast --all-features 2>&1 | grep -E '^test |FAILED|panicked|error' | head -20", cwd=W)
    r = sh(f"bash {d}/demo.sh", cwd=W)
    sh("git checkout -- crates/*/src", cwd=W)
    r0 = sh(f"bash {d}/demo.sh", cwd=W)
    ok = r.returncode != 0 and r0.returncode == 0 and "FAILED" not in t.stdout and "error" not in t.stdout and "test result: ok" in t.stdout
    print(i, "KEPT" if ok else "DROPPED", "patched demo", r.returncode, "| clean demo", r0.returncode, "" if ok else t.stdout.strip()[:600], flush=True)
    if not ok:
        print((r0 if r0.returncode else r).stdout[-800:])
        shutil.rmtree(d)
