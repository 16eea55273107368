#!/bin/bash
# runs the command line tool that build.sh built in the working directory
bin=$PWD/target/debug/dandy-cli
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cd "$dir" || exit 2
printf 'ab' > a.re; printf 'ab\013ab\nab\n' > t; out=$("$bin" --less-logs test-file --type regex a.re t); echo "$out"; [ "$out" = "$(printf 'Testing file t:\n[FAIL] ab\013ab\n[ OK ] ab\n1/2 lines passed in file t:')" ]
