#!/usr/bin/env python3
"""seeds.py gen [ID..]   write /verif/seeded/<id> from the specs in tools/seeds_*.py
seeds.py verify [ID..]   in a scratch copy of /repo: applies, builds, tests pass, demo passes/fails
seeds.py check [ID..]    apply to /repo, run the property's check (and EXTRA=ids), undo"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
KIT = V + "/tools/seedkit"

def specs():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seeds_*.py")):
        sp = importlib.util.spec_from_file_location("x", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for d in m.SEEDS:
            assert d["id"] not in out, d["id"]
            out[d["id"]] = d
    return out

def gen(d):
    dst = f"{S}/{d['id']}"
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    tmp = tempfile.mkdtemp()
    try:
        for f, _, _ in d["edits"]:
            for side in "ab":
                os.makedirs(os.path.dirname(f"{tmp}/{side}/{f}"), exist_ok=True)
                shutil.copy(f"/repo/{f}", f"{tmp}/{side}/{f}")
        for f, a, b in d["edits"]:
            s = open(f"{tmp}/b/{f}").read()
            assert s.count(a) == 1, (d["id"], f, s.count(a), a)
            open(f"{tmp}/b/{f}", "w").write(s.replace(a, b))
        diff = ""
        for f in sorted({e[0] for e in d["edits"]}):
            diff += f"diff --git a/{f} b/{f}\n"
            diff += subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=tmp, capture_output=True, text=True).stdout
        lines = [l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in diff.split("\n")]
        open(f"{dst}/patch.diff", "w").write("\n".join(lines))
    finally:
        shutil.rmtree(tmp)
    if "main" in d:
        open(f"{dst}/main.rs", "w").write(d["main"].lstrip("\n"))
        if "mod kit" in d["main"]:
            shutil.copy(f"{KIT}/kit.rs", dst)
        shutil.copy(f"{KIT}/demo_crate.sh", f"{dst}/demo.sh")
    else:
        open(f"{dst}/demo.sh", "w").write(d["sh"].lstrip("\n"))
    os.chmod(f"{dst}/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{dst}/meta.json", "w"), indent=1)

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")

def build(c):
    r = subprocess.run("cargo build --workspace --offline -q && cargo test --workspace --offline -q", shell=True, cwd=c, env=ENV, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def verify(ids):
    c = "/tmp/seedcopy"
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    try:
        rc, out = build(c)
        assert rc == 0, out
        for i in ids:
            d = f"{S}/{i}"
            demo = lambda: subprocess.run(["bash", f"{d}/demo.sh"], cwd=c, capture_output=True, text=True, timeout=300)
            a = demo()
            r = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=c, capture_output=True, text=True)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr); continue
            rc, out = build(c)
            b = demo() if rc == 0 else None
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=c, check=True)
            build(c)
            ok = a.returncode == 0 and rc == 0 and b.returncode not in (0, 9)
            print(i, "ok" if ok else "BAD", "| clean:", a.returncode, "tests:", rc, "patched:", b and b.returncode, "|", (b.stdout + b.stderr).strip()[-160:].replace("\n", " / ") if b else out, flush=True)
            if a.returncode: print("   clean output:", (a.stdout + a.stderr)[-800:])
    finally:
        shutil.rmtree(c, ignore_errors=True)

def check(ids):
    for i in ids:
        d = f"{S}/{i}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
        try:
            for p in [prop] + os.environ.get("EXTRA", "").split():
                t = time.time()
                r = subprocess.run([f"{V}/check.sh", p], capture_output=True, text=True)
                caught = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
                lines = r.stdout.strip().split("\n")
                print(i, p, "CAUGHT" if caught else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", "|", (lines[1] if caught and len(lines) > 1 else (r.stderr or lines[-1]))[:170], flush=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    sp = specs()
    if cmd == "gen":
        for i in ids or sp:
            gen(sp[i])
    else:
        {"verify": verify, "check": check}[cmd](ids or sorted(os.listdir(S)))
