#!/usr/bin/env python3
"""plant.py ID PROPERTY: store the current /repo working-tree diff as a planted bug.
Reads demo source from stdin (main.rs); options: --deps 'crate1,crate2:feat' """
import sys,subprocess,os,json,argparse
a=argparse.ArgumentParser()
a.add_argument("id");a.add_argument("prop");a.add_argument("--deps",default="data");a.add_argument("--needs",required=True);a.add_argument("--breaks",required=True)
a=a.parse_args()
d=f"/verif/seeded/{a.id}"
os.makedirs(d,exist_ok=True)
diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
assert diff.strip(),"no diff"
open(d+"/patch.diff","w").write(diff)
open(d+"/demo.rs","w").write(sys.stdin.read())
deps=""
for x in a.deps.split(","):
    n,_,f=x.partition(":")
    path=f"/repo/crates/logicaffeine_{n}" if not n.startswith("=") else None
    if path:
        deps+=f'logicaffeine-{n} = {{ path = "{path}"'+(f', features = ["{f}"]' if f else "")+" }\n"
    else:
        deps+=n[1:]+' = "*"\n'
open(d+"/demo.sh","w").write(f'''#!/bin/bash
# Builds demo.rs against the crates in /repo and runs it; a failed assertion exits non-zero.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
t=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp /repo/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
{deps}[profile.dev]
debug = 0
opt-level = 1
[workspace]
T
cd "$t" && cargo build --offline --quiet 2>"$t/log" || {{ tail -20 "$t/log"; exit 3; }}
timeout 120 ./target/debug/demo
''')
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":a.prop,"needs":a.needs,"what_it_breaks":a.breaks},open(d+"/meta.json","w"),indent=1)
subprocess.run(["git","-C","/repo","checkout","--","."])
print("stored",d)
