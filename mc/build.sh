#!/bin/bash
# build.sh <repo> <harness> <out> <kind> [extra cflags...]
# kind: plain | sep (deps/*.c compiled separately) | asan | inst (memory access callbacks)
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$1; H=$2; O=$3; K=$4; shift 4
W="clock_gettime gettimeofday nanosleep clock_nanosleep usleep select poll epoll_create1 epoll_create epoll_ctl epoll_wait epoll_pwait sched_yield close pipe pipe2 eventfd socket accept accept4 read write recv send connect bind listen setsockopt getsockopt unlink fcntl fcntl64 sigaction sigaltstack _Exit abort mmap munmap mprotect"
X=$(sed -n 's,^// WRAP: ,,p' $D/h_$H.c | tr '\n' ' ')
L=""; for w in $W $X; do L="$L -Wl,--wrap=$w"; done
C="-std=gnu11 -g -w -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_GNU_SOURCE -I$R -I$D"
LIB="$R/neco.c"; LC="-O2"; S=""
TS="-fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset"
case $K in
sep)  LIB="$R/neco.c $R/deps/sco.c $R/deps/stack.c $R/deps/worker.c"; LC="-O2 -DNECO_NOAMALGA";;
asan) S="-fsanitize=address --param asan-stack=0 --param asan-globals=1"; LC="-O1 $S";;
inst) LC="-O1 $TS";;
instsep) LIB="$R/neco.c $R/deps/sco.c $R/deps/stack.c $R/deps/worker.c"; LC="-O1 -DNECO_NOAMALGA $TS";;
esac
T=$O.d; mkdir -p $T; P=""
# markers around the static data of the library
for m in a z; do echo "char mc_lib_data_$m[16] __attribute__((aligned(16))) = {1}; char mc_lib_bss_$m[16] __attribute__((aligned(16)));" >$T/mark_$m.c; gcc -c $T/mark_$m.c -o $T/mark_$m.o; done
OBJ=$T/mark_a.o
for f in $LIB; do
    o=$T/lib_$(basename $f .c).o; OBJ="$OBJ $o"
    gcc $C $LC "$@" -c $f -o $o & P="$P $!"
done
OBJ="$OBJ $T/mark_z.o"
for f in mc.c h_$H.c; do
    o=$T/$(basename $f .c).o; OBJ="$OBJ $o"
    gcc $C -O2 $S "$@" -c $D/$f -o $o & P="$P $!"
done
for p in $P; do wait $p; done
case $K in inst*) for o in $T/lib_*.o; do objcopy --redefine-sym memcpy=mc_memcpy --redefine-sym memmove=mc_memmove --redefine-sym memset=mc_memset $o; done;; esac
gcc $S -o $O $OBJ $L -lm -lpthread -ldl
rm -rf $T
