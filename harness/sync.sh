#!/bin/bash
# one cargo feature and one module per property: src/p_*.rs
cd "$(dirname "$0")"
{ echo "props! {"; for f in src/p_*.rs; do m=$(basename $f .rs); echo "    \"$m\" $m,"; done; echo "}"; } > src/props.in
python3 - <<'P'
import re,glob,os
s=open('Cargo.toml').read()
fs="".join(f"{os.path.basename(f)[:-3]} = []\n" for f in sorted(glob.glob('src/p_*.rs')))
s=re.sub(r"\[features\]\n.*?\n\n", "[features]\ndefault = [\"std\"]\nstd = []\n"+fs+"\n", s, flags=re.S)
open('Cargo.toml','w').write(s)
P
