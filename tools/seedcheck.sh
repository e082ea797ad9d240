#!/bin/bash
# seedcheck.sh ID[:PROP,PROP]...: runs the checks against planted bugs, in a mount namespace in which
# copies stand in for /repo and /verif, so that both can be worked on meanwhile
if [ -z "$IN_NS" ]; then
  w=$(mktemp -d /tmp/seedcheck.XXXXXX); trap 'rm -rf "$w"' EXIT
  git clone -q /repo $w/repo && mkdir $w/verif && (cd /verif && cp -a $(ls -A | grep -v -e '^\.git$' -e '^seeded$' -e '^evidence$') $w/verif/) && mkdir $w/verif/evidence && cp -a /verif/seeded $w/seeded || exit 1
  IN_NS=$w unshare -m bash "$0" "$@"; exit
fi
w=$IN_NS
mount --bind $w/repo /repo && mount --bind $w/verif /verif || exit 1
cd /verif
for x in "$@"; do
  id=${x%%:*}; props=${x#*:}; [ "$props" = "$x" ] && props=$(python3 -c "import json;print(json.load(open('$w/seeded/$id/meta.json'))['property'])")
  patch=$w/seeded/$id/patch.diff; [ -f "$id" ] && { patch=$id; id=$(basename $id .diff); }
  git -C /repo apply $patch || continue
  for p in ${props//,/ }; do
    t=$(date +%s); python3 tools/check.py $p > /tmp/seedcheck.$id.$p.log 2>&1; r=$?
    echo "$id $p exit $r $(( $(date +%s) - t ))s: $(head -2 /tmp/seedcheck.$id.$p.log | tr '\n' ' ' | cut -c 1-260)"
  done
  git -C /repo checkout -q -- .
done
