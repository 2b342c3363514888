#!/usr/bin/env python3
"""plant.py SPEC.py...: build and confirm planted bugs (see DESIGN.md, "Planted bugs").

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (main.rs) and optionally
AGNOSTIC = True. Works in /tmp/s (a scratch clone of /repo and shared target folders).
"""
import json, os, shutil, subprocess, sys, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/s"
KIT = f"{VERIF}/tools/demokit"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def clone():
    os.makedirs(S, exist_ok=True)
    head = sh("git -C /repo rev-parse HEAD")[1].strip()
    if not os.path.isdir(f"{S}/repo") or sh(f"git -C {S}/repo rev-parse HEAD")[1].strip() != head:
        shutil.rmtree(f"{S}/repo", ignore_errors=True)
        sh(f"git clone -q /repo {S}/repo")
        shutil.copy("/repo/Cargo.lock", f"{S}/repo/Cargo.lock")
    sh("git checkout -q -- .", f"{S}/repo")


def base_lines(path):
    """Line numbers (1-based) of `path` which the base commit contributed."""
    out = sh(f"git blame -s --root {path}", "/repo")[1].splitlines()
    root = sh("git rev-list --max-parents=0 HEAD", "/repo")[1].strip()[:7]
    return [l.lstrip("^").startswith(root) for l in out]


def demo(folder, repo, target):
    w = f"{S}/demo"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(folder, w)
    for f in ("Cargo.toml",):
        t = open(f"{w}/{f}").read().replace('"/repo', f'"{repo}')
        open(f"{w}/{f}", "w").write(t)
    return sh(f"bash {w}/demo.sh", repo, dict(ENV, DEMO_TARGET=target), 400)


def main(spec):
    d = runpy.run_path(spec)
    ID, ag = d["ID"], d.get("AGNOSTIC", False)
    clone()
    for path, old, new in d["EDITS"]:
        t = open(f"{S}/repo/{path}").read()
        if t.count(old) != 1:
            return f"{ID}: edit matches {t.count(old)} times: {old!r}"
        open(f"{S}/repo/{path}", "w").write(t.replace(old, new))
    patch = sh("git diff -U3", f"{S}/repo")[1]
    # Which original lines does it change?
    good = bad = 0
    cur, base, n = None, None, 0
    for l in sh("git diff -U0", f"{S}/repo")[1].splitlines():
        if l.startswith("--- a/"):
            base = base_lines(l[6:])
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            good, bad = (good + 1, bad) if base[n - 1] else (good, bad + 1)
            n += 1
    rc, out = sh("cargo test --offline --lib -q -- codec:: jsonrpc:: service::client::pending:: 2>&1", f"{S}/repo", dict(ENV, CARGO_TARGET_DIR=f"{S}/td/test"))
    if rc:
        return f"{ID}: stable tests fail\n{out[-1500:]}"
    rc, out = sh("cargo check --offline -q --no-default-features --features runtime-agnostic", f"{S}/repo", dict(ENV, CARGO_TARGET_DIR=f"{S}/td/check"))
    others = sh("timeout 60 cargo test --offline --lib -q 2>&1", f"{S}/repo", dict(ENV, CARGO_TARGET_DIR=f"{S}/td/test"))[0] if not rc else 0
    if rc:
        return f"{ID}: agnostic build fails\n{out[-2000:]}"
    dst = f"{VERIF}/seeded/{ID}"
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copy(f"{KIT}/demo.sh", dst)
    shutil.copy(f"{KIT}/Cargo{'_agnostic' if ag else ''}.toml", f"{dst}/Cargo.toml")
    shutil.copy(f"{KIT}/kit{'_agnostic' if ag else ''}.rs", f"{dst}/kit.rs")
    shutil.copy(f"{VERIF}/sim/Cargo.lock" if not os.path.exists(f"{KIT}/Cargo.lock") else f"{KIT}/Cargo.lock", f"{dst}/Cargo.lock")
    open(f"{dst}/main.rs", "w").write("mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n" + d["DEMO"].strip("\n") + "\n")
    open(f"{dst}/patch.diff", "w").write(patch)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{dst}/meta.json", "w"), indent=1)
    tgt = "ag" if ag else "tk"
    rc, out = demo(dst, "/repo", f"{S}/td/demo-{tgt}-good")
    if rc:
        return f"{ID}: demo fails unpatched ({rc})\n{out[-1500:]}"
    rc, out = demo(dst, f"{S}/repo", f"{S}/td/demo-{tgt}-bad")
    if rc == 0:
        return f"{ID}: demo passes with the patch"
    msg = [l for l in out.splitlines() if "panicked" in l or "rror" in l or "assert" in l]
    return f"{ID}: ok (other tests {others}, lines of base {good}, of ours {bad}; demo rc {rc}: {' | '.join(msg)[:300]})"


import fcntl
os.makedirs(S, exist_ok=True)
lock = open(f"{S}/lock", "w")
fcntl.flock(lock, fcntl.LOCK_EX)
for s in sys.argv[1:]:
    print(main(s), flush=True)
