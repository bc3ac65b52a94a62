#!/bin/bash
# try_seed.sh ID... : build, test, demo and check planted bugs in a private copy of /repo (own mount namespace)
# usage: try_seed.sh [-n (no build/test)] ID...
nb=0; [ "$1" = -n ] && { nb=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seedXXXX)
  cp -a /repo $w/repo
  cp -a $d $w/seed
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $w/repo /repo || exit 9
    cd /repo
    bash $w/seed/demo.sh >$w/d0 2>&1; echo \"$id demo unpatched: \$?\"
    git apply $d/patch.diff || echo APPLY
    bash $w/seed/demo.sh >$w/d1 2>&1; echo \"$id demo patched: \$? \$(tail -1 $w/d1 | cut -c1-200)\"
    if [ $nb = 0 ]; then
      bash /opt/vp/build.sh >$w/b 2>&1; echo \"$id build: \$?\"
      bash /opt/vp/test.sh $w/t.json 2>&1 | tail -1
      python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$w/t.json'))
b=set(b['stable'])
print('$id stable tests broken:', sorted(b-set(t['passed']))[:5])
P
    fi
    cd /verif && python3-vt check.py $prop quick 2>&1 | grep -vE '^ *(goal|z3|cvc5)' | cut -c1-300 | tail -12
  "
  rm -rf "$w"
done
