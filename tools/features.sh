#!/bin/bash
# keeps the feature lists of harness and native in step with harness/src/lib.rs
cd "$(dirname "$0")/.."
M=$(sed -n 's/^    "\([a-z0-9]*\)" [a-z0-9]*:.*/\1/p' harness/src/lib.rs)
for f in harness native; do
  pre=""; [ $f = native ] && pre="vxh/"
  python3 - "$f" "$pre" $M <<'Q'
import sys,re
f,pre,*m=sys.argv[1:]
p=f+"/Cargo.toml"; s=open(p).read()
i=s.index("[features]"); j=s.index("[dependencies]")
if pre: body='all = ["vxh/all"]\n'+"".join(f'{x} = ["vxh/{x}"]\n' for x in m)
else: body="all = ["+", ".join(f'"{x}"' for x in m)+"]\n"+"".join(f"{x} = []\n" for x in m)
open(p,"w").write(s[:i]+'[features]\ndefault = ["all"]\n'+body+"\n"+s[j:])
Q
done
