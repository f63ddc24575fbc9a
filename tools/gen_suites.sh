#!/bin/bash
# Writes /verif/SUITES.md from the explorer's own list of suites.
cd "$(dirname "$0")/.." || exit 1
(cd mc && cargo build --release --offline -q) || exit 1
{
echo "# Enumerated spaces"
echo
echo "Written by tools/gen_suites.sh from \`mc list\`. Every index below the size is executed."
for t in quick thorough; do
  echo; echo "## $t"; echo; echo '```'
  mc/target/release/mc list $t 2>/dev/null
  echo '```'
done
} > SUITES.md
