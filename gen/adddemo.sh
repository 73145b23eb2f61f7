#!/bin/bash
# adddemo.sh ID: installs the template demo for seeded/ID (main.n must exist) and records expected.txt from the clean tree
V="$(cd "$(dirname "$0")/.." && pwd)"; d="$V/seeded/$1"
cp "$V/gen/demo.tmpl" "$d/demo.sh"
t="$(mktemp -d /tmp/demo.XXXXXX)"; cp "$d/main.n" "$t/"
(cd "$t" && NATURE_ROOT=${VERIF_REPO:-/repo} ${VERIF_REPO:-/repo}/_build/main/nature build -o prog main.n && timeout 60 ./prog > out.txt 2>&1; echo "rc=$?" >> out.txt); cat "$t/out.txt"; cp "$t/out.txt" "$d/expected.txt"; sed -i "s, at [^ ]*/main.n:.*,," "$d/expected.txt"; rm -rf "$t"
