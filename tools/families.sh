#!/bin/bash
# families.sh > FAMILIES.md : the enumerated spaces of every check, from the checks themselves (run after ./check.sh setup)
cd "$(dirname "$0")/.." || exit 1
echo "# Enumerated spaces"
echo
echo "Written by \`tools/families.sh\`. Each line is a family: a space that a run enumerates completely, with its size. What"
echo "a run really covered (states, transitions, traces, whether every family was exhausted) is in \`evidence/\`."
echo "\`both\`: quick and thorough tier; \`quick\`: replaced in the thorough tier by something larger."
for p in $(seq -w 1 28); do
  echo; echo "## P$p"; echo; echo "| tier | cases | family |"; echo "|---|---:|---|"
  "target/release/$([ "$p" = 25 ] && echo mcweb || echo mc)" "P$p" --list | awk -F'\t' '{gsub(/\|/,"\\|"); print "| " $1 " | " $2 " | " $3 " |"}'
done
