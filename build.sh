#!/bin/bash
# build.sh ID [fuzz]: builds the check of one property from $REPO's current
# tree; prints the path of the binary. Objects live in .build/<hash of all
# sources and flags>, so a stale object can never be picked up.
set -u
ID=$1; MODE=${2:-pbt}
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
CXX=clang++
FLAGS="-std=c++17 -g1 -O1 -fno-omit-frame-pointer -fsanitize=address,bounds,null,return,unreachable -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DROCKSDB_NO_RTTI_CHECK -w -I$REPO -I$V -I$V/shim -I/usr/include/botan-2"
LIBS="-lbotan-2 -lpthread"
SRC=$(ls $V/props/${ID}_*.cc 2>/dev/null | head -1)
[ -n "$SRC" ] || { echo "no check for $ID" >&2; exit 2; }
if grep -q '^// USES: .*threads' $SRC; then
    FLAGS="${FLAGS/address,bounds,null,return,unreachable/thread}"
fi
REPO_SRCS="ron/status.cc ron/uuid.cc ron/uuid-parser.cc ron/text.cc ron/text-parser.cc ron/text-builder.cc ron/cp-parser.cc ron/hash.cc ron/utf8-parser.cc"
# a source file that was added later is a part of the library as well
for f in $(cd $REPO && ls ron/*.cc); do
    case " $REPO_SRCS ron/string-parser.cc " in *" $f "*) ;; *) REPO_SRCS="$REPO_SRCS $f";; esac
done
if grep -q '^// USES: .*rocks' $SRC; then
    REPO_SRCS="$REPO_SRCS db/key.cc db/rocks_store.cc"
    LIBS="$LIBS -lrocksdb -lsnappy -lz -lbz2 -ldl"
elif grep -q '^// USES: .*key' $SRC; then
    REPO_SRCS="$REPO_SRCS db/key.cc"
fi
if [ $MODE = fuzz ]; then
    FLAGS="$FLAGS -fsanitize=fuzzer-no-link -DPBT_LIBFUZZER"
    LIBS="$LIBS -fsanitize=fuzzer"
fi
HASH=$( { cd $REPO && find ron rdt db -type f \( -name '*.cc' -o -name '*.hpp' -o -name '*.h' -o -name '*.rl' \) -print0 | sort -z | xargs -0 sha1sum
          cd $V && find engine lib shim -type f -print0 2>/dev/null | sort -z | xargs -0 sha1sum
          echo "$FLAGS $REPO"; } | sha1sum | cut -c1-16)
B=$V/.build/$HASH
mkdir -p $B
# keep the few most recent trees only
ls -dt $V/.build/*/ 2>/dev/null | tail -n +5 | while read d; do case $d in $V/.build/*) rm -rf "$d";; esac; done
PHASH=$(sha1sum $SRC | cut -c1-12)
OUT=$B/$ID-$PHASH
if [ -x $OUT ]; then echo $OUT; exit 0; fi
M=$B/$ID.$$.mk
{
    echo "all: $OUT"
    OBJS=""
    for s in $REPO_SRCS; do
        o=$B/$(echo $s | tr / _).o
        OBJS="$OBJS $o"
        echo "$o: $REPO/$s"; printf '\t%s\n' "$CXX $FLAGS -c $REPO/$s -o $o.$$.tmp && mv $o.$$.tmp $o"
    done
    o=$B/engine.o; OBJS="$OBJS $o"
    echo "$o: $V/engine/pbt.cc"; printf '\t%s\n' "$CXX $FLAGS -c $V/engine/pbt.cc -o $o.$$.tmp && mv $o.$$.tmp $o"
    o=$B/$ID-$PHASH.o; OBJS="$OBJS $o"
    echo "$o: $SRC"; printf '\t%s\n' "$CXX $FLAGS -c $SRC -o $o.$$.tmp && mv $o.$$.tmp $o"
    echo "$OUT: $OBJS"; printf '\t%s\n' "$CXX $FLAGS $OBJS $LIBS -o $OUT.$$.tmp && mv $OUT.$$.tmp $OUT"
} > $M
if ! make -s -j8 -f $M > $B/$ID.$$.log 2>&1; then
    cat $B/$ID.$$.log >&2
    rm -f $M $B/$ID.$$.log
    echo "BUILD FAILED for $ID" >&2
    exit 2
fi
rm -f $M $B/$ID.$$.log
echo $OUT
