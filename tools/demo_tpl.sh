#!/bin/sh
# run with cwd /repo after the build; builds demo.myr beside this file with the repository's compiler and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here"/*.myr "$d"/
I=""; L=""
for l in sys std bio regex thread crypto date escfmt fileutil flate http inifile iter json math testr; do
	I="$I -I $PWD/obj/lib/$l"; L="$L -L$PWD/obj/lib/$l"
done
R=$PWD
cd "$d"
"$R/6/6m" $I demo.myr >out 2>&1 || { cat out; exit 1; }
ld -o demo "$R/rt/_myrrt.o" demo.o $L --start-group @LIBS@ -lregex -lbio -lthread -lstd -lsys --end-group 2>/dev/null || exit 1
timeout 60 ./demo
