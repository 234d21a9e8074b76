#!/bin/bash
# check.sh <property> [quick|thorough]: build from /repo's working tree, then decide the property.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VH_VERIF=$V VERIF_SEED=${VERIF_SEED:-1}
tier=${2:-${VERIF_TIER:-quick}}
cli=
case "$1" in C14|C15|C20) cli=--cli ;; esac
bash "$V/build.sh" $cli || exit 2
export VH_CLI=$V/target/cli/debug/rekordcrate
exec "$V/target/release/vh" "$1" --tier "$tier"
