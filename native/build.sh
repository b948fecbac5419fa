#!/bin/sh
# usage: build.sh SOURCE OUT   (TRAX_REPO: the tree under test)
R=${TRAX_REPO:-/repo}; D=$(cd "$(dirname "$0")" && pwd)
W=""; for f in read write recv send; do W="$W -Wl,--wrap=$f"; done
grep -q chan.h "$1" || W=""
CF="-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment,function -D_GNU_SOURCE -I$R/include -I$R/src -I$D"
exec clang $CF -o "$2" "$1" $R/src/message.c $R/src/trax.c $R/src/region.c $R/src/strmap.c $R/src/base64.c $R/src/debug.c $W -lm
