#!/usr/bin/env python3
"""gen.py: writes /verif/seeded/<id> from bugs.py entries (patch via scratch copy)."""
import subprocess, os, json, sys, importlib.util
W="/tmp/sb2/repo"
OUT="/verif/seeded"
DEMO='''#!/bin/bash
# Exit 0 when the behaviour described in demo.rs holds for the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTFLAGS="--warn=semicolon_in_expressions_from_macros" CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
scratch=$(mktemp -d /tmp/seeded-demo.XXXXXX) || exit 2
trap 'find "$scratch" -delete' EXIT
mkdir "$scratch/src" && cp "$here/demo.rs" "$scratch/src/main.rs" && cp "$repo/Cargo.lock" "$scratch/" || exit 2
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
ferrous-chloride = { path = "$repo/lib" }
serde = { version = "1.0", features = ["derive"] }
nom = { version = "=4.2.3", features = ["verbose-errors"] }
[profile.dev]
debug = 0
EOF
cd "$scratch" || exit 2
cargo build --offline -q 2> build.log || { tail -30 build.log; echo "demo did not build"; exit 2; }
timeout 120 ./target/debug/demo
'''
DEMOCLI='''#!/bin/bash
# Exit 0 when the command line program built from the tree in the current directory behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTFLAGS="--warn=semicolon_in_expressions_from_macros" CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
scratch=$(mktemp -d /tmp/seeded-demo.XXXXXX) || exit 2
trap 'find "$scratch" -delete' EXIT
(cd "$repo/cli" && cargo build --offline -q --target-dir "$scratch/target") 2> "$scratch/build.log" || { tail -30 "$scratch/build.log"; exit 2; }
fecl=$scratch/target/debug/fecl
cd "$scratch" || exit 2
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    spec=importlib.util.spec_from_file_location("bugs",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    if not os.path.isdir(W): sh(f"cp -a /repo {W}")
    for b in m.BUGS:
        if len(sys.argv)>2 and b["id"] not in sys.argv[2:]: continue
        sh(f"git -C {W} checkout -q -- .")
        ok=True
        for f,o,n in b["edits"]:
            p=f"{W}/{f}"; s=open(p).read()
            if s.count(o)!=1: print(b["id"],"edit matches",s.count(o),repr(o[:80])); ok=False; break
            open(p,"w").write(s.replace(o,n))
        if not ok: continue
        d=f"{OUT}/{b['id']}"; os.makedirs(d,exist_ok=True)
        diff=sh(f"git -C {W} diff").stdout
        open(f"{d}/patch.diff","w").write(diff)
        if "cli" in b:
            open(f"{d}/demo.sh","w").write(DEMOCLI+b["cli"].strip()+"\n")
        else:
            open(f"{d}/demo.sh","w").write(DEMO)
            open(f"{d}/demo.rs","w").write(b["demo"].strip()+"\n")
        os.chmod(f"{d}/demo.sh",0o755)
        json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(f"{d}/meta.json","w"),indent=1)
        sh(f"git -C {W} checkout -q -- .")
        print("wrote",b["id"])
main()
