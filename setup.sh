#!/bin/bash
# Nothing to build: the checks run the specifications with TLC and import /repo.
# This only verifies that every specification module parses.
cd "$(dirname "$0")/spec" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f "/tmp/sany.$$"
echo "specifications parse"
