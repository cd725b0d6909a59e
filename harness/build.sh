#!/bin/bash
# build.sh OUTDIR [cxx]: compiles /repo's current working tree (address sanitizer, heap seam) and the driver
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
DEF="-D_cplusplus"; INC="-I$R/modules/core/include -I$R/modules/process/include -I$R/modules/algorithm/include -I$R/modules/highgui/include"
SAN="-fsanitize=address -fno-omit-frame-pointer -fno-common"
CF="-g1 -O0 -w -ffp-contract=off $SAN $DEF $INC"
WRAP="-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=_Znwm,--wrap=_Znam,--wrap=_ZdlPv,--wrap=_ZdaPv,--wrap=_ZdlPvm,--wrap=_ZdaPvm"; [ "${2:-c}" = c ] && WRAP="$WRAP,--wrap=rand,--wrap=srand"
MODE=${2:-c}
SRC="$R/modules/core/src/c_src $R/modules/process/src/c_src $R/modules/process/src/cxx_src $R/modules/highgui/src $R/modules/algorithm/src"
LIBS="-lm -lpthread"
if [ $MODE = cxx ]; then CF="$CF -Dgdal_switch=1 -I/usr/include/gdal"; SRC="$SRC $R/modules/core/src/cxx_src"; LIBS="$LIBS -lgdal"; DRV="drv ops_core ops_cxx"; else DRV="drv ops_core ops_proc ops_alg"; fi
M=$O/jobs.$MODE; : > "$M"; n=0
for d in $SRC; do for f in "$d"/*.c "$d"/*.cpp; do [ -f "$f" ] || continue; n=$((n+1))
  case $f in *.c) echo "gcc $CF -c $f -o $O/$MODE.l$n.o" >> "$M";; *) echo "g++ -std=gnu++11 $CF -c $f -o $O/$MODE.l$n.o" >> "$M";; esac; done; done
for f in $DRV; do [ -f $V/$f.cpp ] && echo "g++ -std=gnu++14 -O1 -g1 -w $SAN $DEF $INC ${CXXX} -I$V -c $V/$f.cpp -o $O/$MODE.d_$f.o" >> "$M"; done
[ $MODE = cxx ] && sed -i '/d_ops_cxx/s/-w /-w -Dgdal_switch=1 -I\/usr\/include\/gdal /' "$M"
echo "gcc -O1 -g1 -w $SAN -I$V -c $V/memwrap.c -o $O/$MODE.d_memwrap.o" >> "$M"
rm -f "$O"/$MODE.*.o
tr '\n' '\0' < "$M" | xargs -0 -P 12 -I{} sh -c '{}'
g++ $SAN "$O"/$MODE.l*.o "$O"/$MODE.d_*.o $WRAP $LIBS -o "$O/driver_$MODE"
