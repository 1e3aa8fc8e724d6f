#!/bin/bash
# Runs the defect demonstrations on a revision of /repo, in a scratch copy:  run.sh <rev>
set -e
rev=${1:-HEAD}; here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d)
git -C /repo archive "$rev" | tar -x -C "$d"; cp -a /repo/target "$d/target"; cp -a /repo/.git "$d/.git"
cp "$here/defect_demo.rs" "$d/src/store/encoding/"
printf '\n#[cfg(test)]\nmod defect_demo;\n#[cfg(test)]\nimpl test::CapturedBlock { fn row(&self) -> u32 { self.row_id() } fn data(&self) -> &[u8] { self.bytes() } }\n' >> "$d/src/store/encoding/mod.rs"
python3 - "$d/src/store/encoding/mod.rs" <<'P'
import sys
p=sys.argv[1]; s=open(p).read()
s=s.replace("    pub struct SinkMock {","    impl CapturedBlock { pub fn row_id(&self) -> u32 { self.row_id } pub fn bytes(&self) -> &[u8] { &self.block_data } }\n    pub struct SinkMock {",1)
open(p,'w').write(s)
P
cd "$d" && timeout 300 cargo test --offline --locked defect_demo 2>&1 | grep -E "^test |test result|error" || true
rm -rf "$d"
