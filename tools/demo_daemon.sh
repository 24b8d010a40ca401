#!/bin/bash
# builds t.c with the objects of the daemon (as the unit tests do) and runs it
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD; B=$PWD/_build
d=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$d"' EXIT
objcopy --globalize-symbol=main --weaken-symbol=main "$B/fcron.o" "$d/fcron.o" || exit 2
O=""
for o in cl subs mem save temp_file log database job conf u_list exe_list lavg_list env_list fcronconf mail filesubs select fcrondyn_svr suspend; do O="$O $B/$o.o"; done
gcc -g -w -DHAVE_CONFIG_H -I"$B" -I"$R" -I/usr/include/selinux "$here/t.c" $O "$d/fcron.o" -o "$d/t" $(cat "$here/ldflags" 2>/dev/null) -lpam -lcrypt -laudit -lselinux || exit 2
cd "$d" || exit 2
TZ=UTC timeout 60 ./t "$d"
