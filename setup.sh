#!/bin/bash
# Builds the framework, so that the first check does not have to.
export PM_HOME=$(cd "$(dirname "$0")" && pwd)
. "$PM_HOME/build.sh" || exit 2
"$PM" list
