#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the checker from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
P=$1
T=${2:-${VERIF_TIER:-quick}}
mkdir -p build evidence
exec 9>build/lock
flock 9
build() {
  bash tools/build.sh "$@" >build/build.log 2>&1 && return
  grep -E "^error" -A6 build/build.log | head -40
  echo "the checker does not build against /repo (see build/build.log)"
  return 1
}
bin=./build/target/debug
case $P in
  C02|C04|C05|C10) # functions only
    build --only "${P,,}" --bin pure || exit 2
    flock -u 9
    exec $bin/pure $P $T ;;
  C01|C06) # functions, and what they do in histories
    rm -rf build/part
    if build --only "${P,,}" --bin pure; then
      VERIF_EVIDENCE=$PWD/build/part $bin/pure $P $T
      r=$?
      if [ $r = 1 ]; then
        cp build/part/$P.json "${VERIF_EVIDENCE:-evidence}/"
        exit 1
      fi
      [ $r = 2 ] || [ -s build/part/$P.json ] || exit 2
    fi
    export VERIF_PART=$PWD/build/part/$P.json ;;
esac
build --bin mc || exit 2
flock -u 9
exec $bin/mc check $P $T
