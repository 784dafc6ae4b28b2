#!/bin/bash
# nothing to build: checks that the tools are there and the specifications parse
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
fail=0
for f in spec/*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -DTLA-Library=spec tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; fail=1; }
done
rm -f /tmp/sany.$$
exit $fail
