#!/bin/bash
# Nothing is installed: checks build the library from /repo's working tree and run TLC from /opt/veriftools.
set -e
cd "$(dirname "$0")"
chmod +x check
command -v gcc >/dev/null; command -v java >/dev/null; test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
# every specification parses
for f in spec/*.tla; do (cd spec && java -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }; done
rm -f /tmp/sany.$$
