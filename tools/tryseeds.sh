#!/bin/bash
# tryseeds.sh [ID...]: runs each planted bug's check (quick; TIER=thorough for the
# other one; CHECK=ID for another check) against it, in a mount namespace of its own
# where /repo is a changed copy and /verif a copy of the working tree, JOBS of them at
# a time (1).
cd "$(dirname "$0")/.." || exit 3
one() {
  i=$1
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/tryXXXXXX)
  git clone -q /repo $w/repo; cp -a $V $w/verif; mkdir -p $w/verif/evidence
  git -C $w/repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; rm -rf "$w"; return; }
  t0=$SECONDS
  out=$(unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && ./check.sh $p ${TIER:-quick}" 2>&1); rc=$?
  if [ $rc = 1 ]; then echo "$i $p CAUGHT $((SECONDS-t0))s: $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"; else echo "$i $p MISSED rc=$rc $((SECONDS-t0))s"; echo "$out" | tail -3; fi
  rm -rf "$w"
}
export -f one
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
export V=$(mktemp -d /tmp/tryv.XXXXXX)/verif
mkdir $V; tar -c --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./replays . | tar -x -C $V
printf '%s\n' "${ids[@]}" | xargs -P "${JOBS:-1}" -I{} bash -c 'one {}'
rm -rf "$(dirname "$V")"
