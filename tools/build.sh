#!/bin/bash
# tools/build.sh [asan]: builds build/sim (or build/sim-asan) from /repo's current working tree and sim/.
set -e
cd "$(dirname "$0")/.."
ROOT=$PWD
REPO=${GAIA_REPO:-/repo}
V=${1:-plain}
B=${SIM_BUILD:-$ROOT/build}/$V
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
HFLAGS="-std=c++20 -O1 -g -fno-pie -I $REPO/src -Wno-unused-result"
CFLAGS="-std=c11 -D_Thread_local= -D__thread= -I $REPO/src -O3 -g -fno-pie -fno-common -U_FORTIFY_SOURCE -w"
LFLAGS="-no-pie"
SAN=
if [ "$V" = asan ]; then
    SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
    HFLAGS="$HFLAGS -DSIM_ASAN"
    LFLAGS="-no-pie -fsanitize=address,undefined"
fi
# ---- harness objects (cached by content)
pids=()
for f in sim/*.cpp; do
    n=$(basename "$f" .cpp)
    hash=$( (cat "$f" sim/*.h; [ "$n" = tables ] && cat "$REPO"/src/*.h; echo "$HFLAGS"; g++ --version) | sha1sum | cut -c1-20)
    if [ "$(cat "$B/$n.sum" 2>/dev/null)" != "$hash" ] || [ ! -f "$B/$n.o" ]; then
        rm -f "$B/$n.sum"
        ( g++ $HFLAGS -c "$f" -o "$B/$n.o" 2> "$B/$n.err" && echo "$hash" > "$B/$n.sum" ||
          # the tables' interfaces are not the ones this driver knows: only C11 is without an answer then
          { cat "$B/$n.err"; [ "$n" = tables ] && g++ $HFLAGS -DNO_TABLES -c "$f" -o "$B/$n.o"; } ) &
        pids+=($!)
    fi
done
for p in "${pids[@]}"; do wait "$p"; done
# ---- gaia itself
rm -rf "$B/gaia"
mkdir -p "$B/gaia"
pids=()
while IFS= read -r f; do
    o=$B/gaia/$(echo "${f#"$REPO"/}" | tr '/ ' '__').o
    ( cd "$REPO" && gcc $CFLAGS $SAN -c "$f" -o "$o" ) &
    pids+=($!)
done < <(find "$REPO/src" -name '*.c' | sort)
for p in "${pids[@]}"; do wait "$p"; done
ld -r -o "$B/gaia/all.lo" "$B"/gaia/*.o
nm "$B/seam.o" | awk '$3 ~ /^sim_/ {n=substr($3,5); print n, $3}' > "$B/redefine"
echo "main gaia_main" >> "$B/redefine"
# the mutable data of the program gets sections of its own, so that every simulated process has its copy
ARGS=()
while read -r s; do
    case $s in
    .data.rel.ro*) ;;
    .bss*) ARGS+=(--set-section-flags "$s=contents,alloc,load,data" --rename-section "$s=gaia_bss,contents,alloc,load,data") ;;
    .data*) ARGS+=(--rename-section "$s=gaia_data,contents,alloc,load,data") ;;
    esac
done < <(objdump -h "$B/gaia/all.lo" | awk '$2 ~ /^\.(data|bss)/ {print $2}' | sort -u)
objcopy --redefine-syms="$B/redefine" "${ARGS[@]}" "$B/gaia/all.lo" "$B/gaia_sim.o"
# what gaia calls that is neither behind the seam nor a function of its arguments and of streams behind the seam
nm -u "$B/gaia_sim.o" | awk '{print $2}' | grep -v '^sim_' | sed 's/@.*//; s/^__isoc[0-9]*_//; s/_unlocked$//; s/^__\(.*\)_chk$/\1/' |
    grep -vxE '(str|mem|is|to|wc|mb)[a-z0-9_]*|__ctype_[a-z_]*|v?[fs]?n?(print|scan)f|f?put[cs]|putchar|_IO_[a-z]*|f?get[cs]|getchar|ungetc|f(read|write)|f(error|eof|seek|seeko|tell|tello|seeko64|tello64|setpos|getpos)|[cf]learerr|rewind|set(v?buf|linebuf|buffer)|ato[a-z]*|l?l?abs|l?l?div|qsort(_r)?|[lbt]search|[lh]?(sqrt|log|log2|log10|pow|exp|floor|ceil|fabs|fmod)[fl]?|argp_[a-z_]*|getopt(_long)?|opt(arg|ind|err|opt)|__errno_location|_?set(jmp|_?longjmp)|_?_?(sig)?(set|long)jmp(_chk)?|std(in|out|err)|__assert_fail|stack_chk_fail|__stack_chk_fail|__[a-z]*san_[a-z0-9_]*|__xpg_[a-z_]*|basename|dirname|gmtime(_r)?|localtime(_r)?|mktime|strftime|[ejn]rand48|rand_r|f(un)?lockfile|ftrylockfile|sem_(init|destroy)|pthread_(mutex|once|self|key|getspecific|setspecific)[a-z_]*|program_invocation_(short_)?name|va_[a-z]*|_GLOBAL_OFFSET_TABLE_|fmemopen|[lf]?ffs(ll?)?|gnu_get_libc_version|environ|sig(empty|fill|add|del|is)[a-z]*|strsignal|psignal' > "$B/unsimulated" || true
g++ $LFLAGS -o "$B/sim.new" "$B"/*.o -lm 2>&1 | grep -v 'is dangerous' || true
[ -f "$B/sim.new" ]
mv "$B/sim.new" "$B/sim"
