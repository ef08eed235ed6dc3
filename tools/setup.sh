#!/bin/bash
# Every check builds what it needs itself; this only makes sure that the tools
# are there and warms the build cache.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
d=$(mktemp -d)
cp -r harness "$d/harness"
(cd "$d/harness" && GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local go build -o "$d/h" . && CGO_ENABLED=1 GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local go build -race -o "$d/hr" .)
rm -r -f "$d"
echo setup done
