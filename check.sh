#!/bin/bash
# check.sh ID [quick|thorough]: exit 0 held, 1 violated, 2 no answer
here=$(cd "$(dirname "$0")" && pwd)
id=$1 tier=${2:-quick}
# Every property is searched in two builds of the library.
case "$id" in
  C06|C07|C16|C17|C18|C19|C21|C22|C24|C25) first=plain second=checked ;;
  C08) first=fine second=plain ;;
  C12) first=deep second=plain ;;
  *) first=checked second=plain ;;
esac
tmp=$(mktemp) || exit 2
trap 'rm -f "$tmp"' EXIT
"$here/build.sh" "$second" >"$tmp" & job=$!
a=$("$here/build.sh" "$first"); ra=$?
wait $job; rb=$?
[ $ra = 0 ] && [ $rb = 0 ] || exit 2
b=$(cat "$tmp")
export VSIM_ROOT="$here"
"$a" check "$id" "$tier" || exit
VSIM_SECOND=1 "$b" check "$id" "$tier"
