#!/bin/bash
# runs the command line tool that build.sh built in the working directory
bin=$PWD/target/debug/dandy-cli
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cd "$dir" || exit 2
printf '  a\n-> * x x\n' > a.dfa; yes a | head -n 1500 > t
out=$("$bin" --less-logs test-file a.dfa t | tail -n 1); echo "$out"; grep -q '^1500/1500 ' <<<"$out"
