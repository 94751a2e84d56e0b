#!/bin/bash
# Entry point of all checks.
#   check.sh setup                 build the machinery
#   check.sh <ID> quick|thorough   decide one property on /repo's current tree
#   check.sh replay <PATH>         run one recorded violation again
#   check.sh all quick|thorough    every property, one after another
# Exit: 0 held, 1 violated (VIOLATION line), 2 no answer (build failed, out of time).
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
TARGET=$VERIF/harness/target
mkdir -p "$TARGET" "$VERIF/evidence" "$VERIF/replays"

build() { # build <post?>
  exec 9>"$TARGET/.check-lock"; flock 9
  # cargo judges staleness by modification times, which a checkout may set back:
  # when the sources differ from those last built, forget what was built of them
  local now; now=$(cd /repo && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' -o -name '*.csv' -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum; cd "$VERIF/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$now" != "$(cat "$TARGET/.check-sources" 2>/dev/null)" ]; then
    [ -d "$TARGET/release/.fingerprint" ] && find "$TARGET/release/.fingerprint" -mindepth 1 -maxdepth 1 -type d \( -name 'sim-*' -o -name 'mc-*' -o -name 'post-*' \) -exec rm -r {} +
    echo none > "$TARGET/.check-sources"
  fi
  local log=$TARGET/.check-build.log
  if ! cargo build --release --offline --locked --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$TARGET" >"$log" 2>&1; then
    tail -40 "$log" >&2; echo "build of the harness failed" >&2; exit 2
  fi
  if [ "$1" = post ]; then
    local had=1; [ -e /repo/Cargo.lock ] || { had=0; cp "$VERIF/harness/post.lock" /repo/Cargo.lock; }
    if ! cargo build --release --offline --manifest-path /repo/Cargo.toml -p post --target-dir "$TARGET" >"$log" 2>&1; then
      tail -40 "$log" >&2; echo "build of the program failed" >&2; exit 2
    fi
    [ $had = 1 ] || rm -f /repo/Cargo.lock
    [ -x "$TARGET/release/post" ] || { echo "no program built" >&2; exit 2; }
    export MC_POST=$TARGET/release/post
  fi

  echo "$now" > "$TARGET/.check-sources"
  flock -u 9
}

ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
case "$ID" in
  setup) build post; echo "setup done"; exit 0 ;;
  replay) build post; exec "$TARGET/release/mc" replay "$2" ;;
  all) rc=0; for p in $("$VERIF/check.sh" list); do "$VERIF/check.sh" "$p" "$TIER" || rc=$?; done; exit $rc ;;
  list) build >&2; exec "$TARGET/release/mc" list ;;
  "") echo "usage: check.sh setup | <ID> quick|thorough | replay <PATH> | all quick|thorough" >&2; exit 2 ;;
esac
if [ "$ID" = C22 ]; then build post; else build; fi
exec "$TARGET/release/mc" run "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --jobs "$(nproc)" --verif "$VERIF"
