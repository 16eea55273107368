#!/bin/bash
# runs the command line tool that build.sh built in the working directory
bin=$PWD/target/debug/dandy-cli
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cd "$dir" || exit 2
printf 'a' > a.re; printf '\357\273\277a\na\n' > t; out=$("$bin" --less-logs test-file --type regex a.re t | tail -1); echo "$out"; [ "$out" = "1/2 lines passed in file t:" ]
