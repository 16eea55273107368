#!/bin/bash
# runs the command line tool that build.sh built in the working directory
bin=$PWD/target/debug/dandy-cli
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cd "$dir" || exit 2
printf '  a\n-> * x x\n' > a.dfa; printf 'a\na\n' > t
out=$("$bin" --less-logs test-file a.dfa t); echo "$out"; grep -q '^2/2 ' <<<"$out"
