#!/bin/bash
# mkseed.sh ID core|native|mrp|util PROPERTY "needs" "what it breaks"
# Takes the change now in /repo's working tree as the planted bug, and /tmp/seeds/ID/main.rs as its
# demonstration; writes /verif/seeded/ID and undoes the change.
set -eu
id=$1 kind=$2
d=/verif/seeded/$id
mkdir -p "$d/crate/src"
git -C /repo diff >"$d/patch.diff"
test -s "$d/patch.diff"
cp "/tmp/seeds/$id/main.rs" "$d/crate/src/main.rs"
if [ "$kind" = mrp ]; then
cat >"$d/crate/Cargo.toml" <<T
[workspace]

[package]
name = "demo"
version = "0.1.0"
edition = "2024"

[dependencies]
mrp = { path = "/repo/mrp" }
anyhow = "1"
log = "0.4"
T
else
sed -e '/harness/d' -e '/proptest/d' -e "s/rr$kind/demo/" -e '/^\[\[bin\]\]/,/^path/d' -e '/^opt-level/d' -e '/^\[profile.dev.package/d' /verif/$kind/Cargo.toml >"$d/crate/Cargo.toml"
cp -a /verif/stubs "$d/"
if [ "$kind" = native ]; then
cp /verif/native/src/fake.rs /verif/native/src/fake_cubeb.rs "$d/crate/src/"
cp -a /verif/native/webrtc-out /verif/native/.cargo "$d/crate/"
fi
fi
cp "/verif/$([ $kind = native ] && echo native || echo core)/Cargo.lock" "$d/crate/Cargo.lock"
cat >"$d/demo.sh" <<'T'
#!/bin/bash
# Builds the demonstration beside this script against /repo in a scratch directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp -r "$here/." "$t/"
cd "$t/crate" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS
cargo build -q --offline 2>"$t/log" || { tail -n 40 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
T
chmod +x "$d/demo.sh"
python3 - "$d" "$3" "$4" "$5" <<'T'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1,ensure_ascii=False)
T
git -C /repo checkout -- .
