#!/bin/bash
# Records golden/corpus.json with the released version (the base commit of this study).
# Run once; kept to document how the corpus was made.
set -e
S=$(mktemp -d /tmp/golden.XXXXXX)
git -C /repo worktree add --detach "$S/base" 3959f17
mkdir -p "$S/verif/golden"; cp -a /verif/harness "$S/verif/"; echo '[]' >"$S/verif/golden/corpus.json"
sed -i "s#path = \"/repo\"#path = \"$S/base\"#" "$S/verif/harness/Cargo.toml"
RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true cargo build --release --offline --manifest-path "$S/verif/harness/Cargo.toml" --target-dir "$S/target"
"$S/target/release/vmon" golden /verif/golden/corpus.json
git -C /repo worktree remove --force "$S/base"
rm -rf "$S"
