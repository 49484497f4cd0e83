#!/bin/bash
# check.sh PROPERTY TIER: rebuild what is checked from /repo, and check.
cd "$(dirname "$0")"
P=$1; T=${2:-quick}
case $P in
Q*) exec ./pycheck.sh "$P" "$T" ;;
esac
if ! ./build.sh app > /verif/build/log.$P 2>&1; then
    tail -30 /verif/build/log.$P; echo "procstar does not build"; exit 2
fi
exec /verif/build/ctl-target/release/ctl check "$P" "$T"
