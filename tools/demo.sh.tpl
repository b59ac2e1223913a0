#!/bin/bash
# run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cc=gcc; src="$d/demo.c"; [ -f "$d/demo.cpp" ] && { cc="g++"; src="$d/demo.cpp"; }
$cc -w -g -Iinclude "$src" -o "$t/demo" -L.libs -lamino EXTRA -lm -lpthread || exit 3
cd "$t" && LD_LIBRARY_PATH="$OLDPWD/.libs:$LD_LIBRARY_PATH" timeout 120 ./demo
