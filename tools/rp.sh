#!/bin/bash
# build and run a replay driver against a tree: rp.sh ID [seed] [tree]
ID=$1; SEED=${2:-1}; R=${3:-/repo}; mkdir -p /tmp/t
F=$(head -1 /verif/replay/$ID.cpp | sed -n 's/^.. FLAGS: //p' | sed 's/-nosan//')
S="-fsanitize=address,undefined -fno-sanitize=alignment,vptr,function,nonnull-attribute,pointer-overflow -fno-sanitize-recover=all"
head -1 /verif/replay/$ID.cpp | grep -q -- -nosan && S=""
clang++-18 -std=c++20 -fno-exceptions -fno-rtti -DRPP_RELWITHDEBINFO_BUILD -I$R -I/verif/replay -w -g -O1 $S /verif/replay/$ID.cpp $R/rpp/impl/unify.cpp $R/rpp/pos/unify.cpp -o /tmp/t/r$ID -lpthread $F && cd $(mktemp -d) && time ASAN_OPTIONS=detect_leaks=0 timeout 100 /tmp/t/r$ID $SEED; echo rc $?
