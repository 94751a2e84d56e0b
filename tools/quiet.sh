#!/bin/bash
# Runs every check on changes which keep the behaviour; prints those which are
# not quiet.  usage: quiet.sh [name ...]   (like matrix.sh, on copies)
V=$(cd "$(dirname "$0")/.." && pwd)
W=${WORKERS:-3}; D=$(mktemp -d /tmp/matrix.XXXXXX)
ids=(${@:-$(cd "$V/refactorings" && ls *.diff | sed 's/.diff$//')})
worker() { # worker <k>, in the namespace
  for ((i = $1; i < ${#ids[@]}; i += W)); do
    d=${ids[$i]}
    git -C /repo apply "/verif/refactorings/$d.diff" || { echo "$d does not apply"; continue; }
    r=""
    for c in ${CHECKS:-$(/verif/check.sh list 2>/dev/null)}; do
      out=$(timeout 900 /verif/check.sh $c quick 2>&1); rc=$?
      if [ $rc != 0 ] || grep -q "^VIOLATION" <<<"$out"; then r="$r $c(rc=$rc)"; { echo "== $d $c"; cut -c1-1500 <<<"$out"; } >> ${LOUD:-/tmp/quiet.loud}; fi
    done
    git -C /repo checkout -q -- .
    echo "$d${r:- quiet}"
  done
}
export -f worker; export W; export IDS="${ids[*]}"
for ((k = 0; k < W && k < ${#ids[@]}; k++)); do
  mkdir -p "$D/$k"
  (cp -a /repo "$D/$k/repo"; cp -a "$V" "$D/$k/verif"
   unshare -Urm bash -c "mount --bind $D/$k/repo /repo && mount --bind $D/$k/verif $V && cd / && ids=(\$IDS) && worker $k") &
done
wait
case "$D" in /tmp/matrix.??????) rm -rf "$D" ;; esac
