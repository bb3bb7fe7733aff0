#!/usr/bin/env python3
"""Developer aid: build and confirm planted bugs. mkseed.py <definitions.py> [id...]
Works in a scratch copy of /repo (/tmp/seedrepo): applies the edit, builds, runs the stable tests, runs the
demonstration with and without the edit, and writes /verif/seeded/<id>/ when everything is as required."""
import json, os, shutil, subprocess, sys, importlib.util, textwrap
SC = "/tmp/seedrepo"
OUT = "/verif/seeded"
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
X
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu TZ=UTC
cd "$t" && cargo build --offline -q 2>"$t/err" || { cat "$t/err"; exit 3; }
cd "$t" && timeout 120 ./target/debug/demo
'''
DEPS = {"te": 'trading-engine = { path = "$repo/trading-engine" }\nserde_json = "1.0"\nanyhow = "1.0"\ntime = { version = "0.3", features = ["macros"] }\n',
        "ql": 'quantlib = { path = "$repo/quantlib" }\nanyhow = "1.0"\ntime = { version = "0.3", features = ["macros"] }\nndarray = "*"\n'}


def sh(cmd, cwd=SC, ok=False, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if ok and p.returncode:
        raise SystemExit("FAILED %s\n%s" % (cmd, p.stdout[-3000:]))
    return p.returncode, p.stdout


def fails(out):
    return {l.split("] ")[-1].split(")")[-1].strip() for l in out.splitlines() if l.strip().startswith(("FAIL", "SIGABRT", "SIGSEGV", "TIMEOUT"))}


def main():
    spec = importlib.util.spec_from_file_location("d", sys.argv[1])
    d = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(d)
    if not os.path.exists(SC):
        sh(["cp", "-a", "/repo", SC], cwd="/", ok=True)
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and k != "RUSTUP_TOOLCHAIN"}
    sh("git checkout -q -- .", ok=True)
    _, out = sh("cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1", env=dict(env, CARGO_NET_OFFLINE="true"))
    stable = fails(out)
    print("failing without any edit:", len(stable), flush=True)
    for s in d.SEEDS:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        sh("git checkout -q -- .", ok=True)
        for f, a, b in s["edits"]:
            p = os.path.join(SC, f)
            t = open(p).read()
            if t.count(a) < 1 or (t.count(a) > 1 and not s.get("first")):
                print(s["id"], "EDIT NOT UNIQUE", t.count(a), a[:60])
                break
            t = t.replace(a, b, 1)
            open(p, "w").write(t)
        else:
            _, diff = sh("git diff")
            rc, out = sh("cargo test --workspace --no-run --offline 2>&1 | grep -E '^error' -A6", env=dict(env, CARGO_NET_OFFLINE="true"))
            if "error" in out:
                print(s["id"], "DOES NOT COMPILE", out[:1500])
                continue
            rc, out = sh("cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1", env=dict(env, CARGO_NET_OFFLINE="true"))
            failed = fails(out)
            broken = sorted(failed - stable)
            if not failed and "tests run" not in out:
                broken = ["did not run"]
            if broken:
                print(s["id"], "BREAKS TESTS", broken)
                continue
            dst = os.path.join(OUT, s["id"])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            open(os.path.join(dst, "demo.rs"), "w").write(textwrap.dedent(s["demo"]).lstrip())
            open(os.path.join(dst, "demo.sh"), "w").write(DEMO.replace("@DEPS@", DEPS[s["pkg"]]))
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
            denv = dict(env)
            r1, o1 = sh(["bash", os.path.join(dst, "demo.sh")], env=denv)
            sh("git checkout -q -- .", ok=True)
            r0, o0 = sh(["bash", os.path.join(dst, "demo.sh")], env=denv)
            good = r0 == 0 and r1 not in (0, 3)
            print(s["id"], "OK" if good else "BAD DEMO", "clean", r0, "patched", r1, (o1[-300:] if good else "\n" + o0[-800:] + "\n----\n" + o1[-800:]).strip().replace("\n", " | ")[:900], flush=True)
            if not good:
                shutil.rmtree(dst)


main()
