#!/bin/bash
# usage: replay.sh REPLAY-FILE
# Runs the case of a reported violation again.
set -u
FILE=$(realpath "${1:?usage: replay.sh REPLAY-FILE}")
export PM_HOME=$(cd "$(dirname "$0")" && pwd)
SANITIZERS=$(sed -n 's/^ "sanitizer": "\(.*\)",$/\1/p' "$FILE")
. "$PM_HOME/build.sh" || exit 2
cd "$PM_HOME" || exit 2
if [ -n "$PM_SAN" ]; then
    PM=${PM_SAN#*=}
    PM=${PM%;}
    export PM_SMALL=1
fi
exec "$PM" replay "$FILE"
