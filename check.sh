#!/bin/bash
# check.sh <property> quick|thorough   decide one property on /repo's current working tree
# check.sh replay <file>               run one recorded case again
# check.sh build                       build every checker
cd "$(dirname "$0")/mc" || exit 2
bin_of() {
  case "$1" in
    C01|C02|C03|C04|C05|C06|C07|C28|C30) echo graph ;;
    C11|C12|C13|C32|C34|C35) echo conv ;;
    C08|C09|C10|C23|C24) echo pair ;;
    C19|C20|C21|C22|C25|C31) echo algo ;;
    C14|C15|C16|C17|C18) echo io ;;
    C26|C27|C29|C33) echo misc ;;
    C36|C37) echo node ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# contents of everything a checker is built from
stamp() {
  { rustc -V; find /repo "$PWD" \( -name target -o -name .git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum
}
build() {   # build BIN...
  local want b old=0; want=$(stamp)
  for b in "$@"; do
    [ -x "target/release/$b" ] && [ "$(cat "target/stamp.$b" 2>/dev/null)" = "$want" ] || old=1
  done
  [ $old = 0 ] && return
  # rebuild the library under test from the working tree, whatever the file times say
  for d in target/release/.fingerprint/rust_graph-*; do [ -e "$d" ] && rm -rf "$PWD/$d"; done
  for b in graph conv pair algo io misc node; do rm -f "$PWD/target/stamp.$b"; done
  cargo build --release --offline --quiet $(printf -- '--bin %s ' "$@") >target/build.log 2>&1 || {
    grep -E "^error" -A 12 target/build.log | head -60 >&2
    echo "MACHINERY-ERROR cannot build the checker against /repo" >&2
    exit 2
  }
  for b in "$@"; do echo "$want" >"target/stamp.$b"; done
}
mkdir -p target
case "$1" in
  build) build graph conv pair algo io misc node ;;
  replay)
    f=$(readlink -f "$2"); [ -f "$OLDPWD/$2" ] && f=$(readlink -f "$OLDPWD/$2")
    b=$(bin_of "$(sed -n 's/^property: //p' "$f" | head -1)") || exit 2
    build "$b"; exec "./target/release/$b" replay "$f" ;;
  *)
    b=$(bin_of "$1") || exit 2
    build "$b"; exec "./target/release/$b" run "$1" "${2:-quick}" ;;
esac
