#!/bin/bash
# developer tool: run checks against a scratch copy of the repository with a patch applied
# try_patch.sh [-R] PATCH [property...]     (needs /tmp/mut/{repo,mc}, see below)
# mkdir -p /tmp/mut; cp -a /repo /tmp/mut/repo; cp -a /verif/mc /tmp/mut/mc; sed -i s#/repo#/tmp/mut/repo# in mc/Cargo.toml
R=""; [ "$1" = -R ] && { R=-R; shift; }
P=$(readlink -f "$1"); shift
PROPS=("$@"); [ ${#PROPS[@]} = 0 ] && PROPS=($(seq -f "C%02g" 1 37))
cd /tmp/mut/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply $R "$P" || { echo "does not apply"; exit 2; }
rsync -a --delete --exclude target /verif/mc/ /tmp/mut/mc/ && sed -i 's#path = "/repo"#path = "/tmp/mut/repo"#' /tmp/mut/mc/Cargo.toml
cd /tmp/mut/mc
for d in target/release/.fingerprint/rust_graph-*; do rm -rf "$PWD/$d"; done
bin_of() {
  case "$1" in
    C01|C02|C03|C04|C05|C06|C07|C28|C30) echo graph ;;
    C11|C12|C13|C32|C34|C35) echo conv ;;
    C08|C09|C10|C23|C24) echo pair ;;
    C19|C20|C21|C22|C25|C31) echo algo ;;
    C14|C15|C16|C17|C18) echo io ;;
    C36|C37|C38|C39) echo node ;;
    *) echo misc ;;
  esac
}
BINS=$(for p in "${PROPS[@]}"; do bin_of $p; done | sort -u | sed "s/^/--bin /" | tr "\n" " ")
cargo build --release --offline $BINS >/tmp/mut/build.log 2>&1 || { echo "BUILD FAILED"; grep -E "^error" -A8 /tmp/mut/build.log | head -30; exit 2; }
for p in "${PROPS[@]}"; do
  MC_EVIDENCE=/tmp/mut/ev MC_REPLAYS=/tmp/mut/replays timeout 400 ./target/release/$(bin_of $p) run $p quick >/tmp/mut/out.$p 2>&1; rc=$?
  echo "$p rc=$rc $(grep -aE '^(OK|VIOLATION|failure|MACHINERY)' /tmp/mut/out.$p | tr '\n' ' ' | cut -c1-260)"
done
cd /tmp/mut/repo && git checkout -q -- .
