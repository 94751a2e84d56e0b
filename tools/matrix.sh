#!/bin/bash
# Runs checks on every planted bug, several at a time.
#   matrix.sh own|all [id ...]
# own: the check of the bug's property; all: every check.
# SEEDED: where the bugs are, if not in seeded/.
# Works on copies which stand in for /repo and /verif in mount namespaces of
# their own: neither is touched.
V=$(cd "$(dirname "$0")/.." && pwd); M=${1:-own}; shift
export S=${SEEDED:-$V/seeded}
W=${WORKERS:-4}; D=$(mktemp -d /tmp/matrix.XXXXXX)
ids=(${@:-$(ls "$S")})
worker() { # worker <k>, in the namespace
  for ((i = $1; i < ${#ids[@]}; i += W)); do
    d=${ids[$i]}
    p=$(python3 -c "import json;print(json.load(open('$S/$d/meta.json'))['property'])")
    git -C /repo apply "$S/$d/patch.diff" || { echo "$d does not apply"; continue; }
    if [ "$M" = own ]; then l=$p; else l=$(/verif/check.sh list 2>/dev/null); fi
    r=""
    for c in $l; do
      out=$(timeout 900 /verif/check.sh $c quick 2>&1); rc=$?
      if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then r="$r $c"; elif [ $rc != 0 ]; then r="$r $c(rc=$rc)"; fi
    done
    git -C /repo checkout -q -- .
    case " $r " in *" $p "*) v=caught ;; *) v=MISSED ;; esac
    echo "$d $p $v:$r"
  done
}
export -f worker; export M W; export IDS="${ids[*]}"
for ((k = 0; k < W && k < ${#ids[@]}; k++)); do
  mkdir -p "$D/$k"
  (cp -a /repo "$D/$k/repo"; cp -a "$V" "$D/$k/verif"
   unshare -Urm bash -c "mount --bind $D/$k/repo /repo && mount --bind $D/$k/verif $V && cd / && ids=(\$IDS) && worker $k") &
done
wait
case "$D" in /tmp/matrix.??????) rm -rf "$D" ;; esac
