#!/bin/bash
# usage: check.sh ID
# Builds the monitors and the program from /repo's working tree and decides one property.
set -u
ID=${1:?usage: check.sh ID}
export PM_HOME=$(cd "$(dirname "$0")" && pwd)
# Sanitizers for the checks which have a use for them
case $ID-${VERIF_TIER:-quick} in
    C17-quick) SANITIZERS=thread ;;
    C17-thorough) SANITIZERS="thread address" ;;
    C14-thorough | C21-thorough) SANITIZERS=address ;;
esac
. "$PM_HOME/build.sh" || exit 2
cd "$PM_HOME" || exit 2
if [ "${VERIF_TIER:-quick}" = thorough ]; then
    export PM_SECONDS=${PM_SECONDS:-600}
else
    export PM_SECONDS=${PM_SECONDS:-25}
fi
exec "$PM" check "$ID"
