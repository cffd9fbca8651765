#!/bin/bash
# check.sh <property> | check.sh replay <file>
V=$(cd "$(dirname "$0")" && pwd)
case "$*" in *C17*) more=web ;; *C22*) more=jobs ;; *) more= ;; esac
bash "$V/build.sh" $more || exit 3
export TWSIM_VERIF=$V
B=$V/build/sim/debug/twsim
case "$1" in
    replay) exec "$B" replay "$2" ;;
    exec | log | collect) exec "$B" "$@" ;;
    *) exec "$B" check "$1" ;;
esac
