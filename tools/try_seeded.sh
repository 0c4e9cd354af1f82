#!/bin/bash
# try_seeded.sh [-j N] id...  : run each planted bug's check on a scratch copy of /repo
J=2; [ "$1" = -j ] && { J=$2; shift 2; }
one() {
  id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/ts.XXXXXX)
  cp -a /repo $w/repo; git -C $w/repo apply $d/patch.diff || { echo "$id does not apply"; rm -rf $w; return; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /verif $w/verif; rm -rf $w/verif/.git $w/verif/seeded
  (cd $w/verif; PYVC_REPO=$w/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run_check.py $p > $w/out 2>&1; echo "$id $p rc=$? $(grep -a VIOLATION $w/out | sed 's/replay=[^ ]*//' | tail -1) | $(grep -a 'what :' $w/out | head -c 220)$(grep -a '  obligation' $w/out | head -1 | cut -c1-200)")
  rm -rf $w
}
export -f one
printf '%s\n' "$@" | xargs -P $J -I{} bash -c 'one {}'
