#!/bin/bash
[ -z "$VERIF_REPO" ] && [ -d /tmp/dev/repo ] && [ "$(cd "$(dirname "$0")/.." && pwd)" != /verif ] && export VERIF_REPO=/tmp/dev/repo
# ms.sh name cases [seeds] [extra args]: run a harness with several seeds and summarize
V=$(cd "$(dirname "$0")/.." && pwd)
n=$1; c=$2; s=${3:-8}; shift 3
export ASAN_OPTIONS=${AX}detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4000 OPENBLAS_NUM_THREADS=1 UBSAN_OPTIONS=print_stacktrace=1 VERIF_DIR=$V ASAN_SYMBOLIZER_PATH=/usr/lib/llvm-18/bin/llvm-symbolizer
cd $V && python3 lib/build.py asan:$n 2>&1 | grep -E "error|asan:" | head -30
rm -f /tmp/$n.*.log
cd /tmp; for sd in $(seq 1 $s); do (timeout ${TMO:-900} $V/build/asan/bin/$n --cases $c --seed $sd --verbose 1 "$@" > /tmp/$n.$sd.log 2>&1; echo "exit $?" >> /tmp/$n.$sd.log) 2>/dev/null & done; wait
grep -hE "^VIOLS|runtime error|ERROR: Addr" /tmp/$n.[0-9].log | sed 's/==[0-9]*==//' | awk '/^VIOLS/{c[$2]+=$3;next}{c[$0]++} END{for(k in c)print k,c[k]}' | sort > /tmp/$n.sum; wc -l < /tmp/$n.sum; head -${HEAD:-70} /tmp/$n.sum
grep -h "^exit" /tmp/$n.[0-9].log | sort | uniq -c
