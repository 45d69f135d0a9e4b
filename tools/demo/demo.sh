#!/bin/bash
# Builds the demonstration against the sources in the current directory (the repository) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r -f "$work"' EXIT
inc=$(find "$repo/src/app" -name '*.hpp' -not -path '*/ut/*' -not -path '*/mock/*' -printf '-I%h\n' | sort -u)
find "$repo/src/app" -name '*.cpp' -not -path '*/ut/*' -not -path "$repo/src/app/main.cpp" > "$work/srcs"
ls "$here"/*.cpp >> "$work/srcs"
flags="-std=c++20 -g1 -O0 -pthread -w -I$here ${SAN:-}"
i=0; : > "$work/cmds"
while read -r s; do i=$((i+1)); echo "g++ $flags $(echo $inc) -c $s -o $work/$i.o" >> "$work/cmds"; done < "$work/srcs"
xargs -a "$work/cmds" -P 8 -I{} sh -c '{}' || { echo "demo does not compile"; exit 2; }
g++ $flags "$work"/*.o -o "$work/demo" || { echo "demo does not link"; exit 2; }
cd "$work"
timeout 120 "$work/demo" > "$work/out" 2>&1
rc=$?
grep -a '^DEMO' "$work/out" | tail -5
[ $rc -ne 0 ] && [ $rc -ne 1 ] && tail -c 1500 "$work/out" | tail -15
exit $rc
