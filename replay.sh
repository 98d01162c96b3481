#!/bin/bash
# replay.sh FILE: rebuilds the build the violation was found in and repeats it exactly
here=$(cd "$(dirname "$0")" && pwd)
variant=$(sed -n 's/^ *"build": *"\([a-z]*\)".*/\1/p' "$1" | head -1)
bin=$("$here/build.sh" "${variant:-checked}") || exit 2
VSIM_ROOT="$here" exec "$bin" replay "$1"
