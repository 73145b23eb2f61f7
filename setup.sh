#!/bin/bash
# Builds the fact extractor (LLVM bitcode -> JSON facts) into /verif/build, which git ignores.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
LLVM=/usr/lib/llvm-18
SRC_HASH=$(sha256sum tool/nfacts.cpp | cut -c1-16)
if [ ! -x build/nfacts ] || [ "$(cat build/nfacts.hash 2>/dev/null)" != "$SRC_HASH" ]; then
    $LLVM/bin/clang++ -O1 -std=c++17 -fno-rtti -fno-exceptions $($LLVM/bin/llvm-config --cppflags) -w tool/nfacts.cpp \
        -o build/nfacts $($LLVM/bin/llvm-config --ldflags --link-shared --libs) 
    echo "$SRC_HASH" > build/nfacts.hash
fi
echo "setup ok"
