#!/bin/bash
# runs the command line tool that build.sh built in the working directory
bin=$PWD/target/debug/dandy-cli
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cd "$dir" || exit 2
printf 'a' > a.re; printf 'a \n' > t
out=$("$bin" --less-logs test-file --type regex -t files a.re t); echo "$out"
grep -q FAIL <<<"$out"
