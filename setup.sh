#!/bin/bash
# Builds the harness once, so that the checks find a warm Go build cache, and
# makes sure that the model checker runs.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p .work evidence
(cd harness && go vet . && go build -o ../.work/harness-setup . && go build -race -o ../.work/harness-setup .)
rm -f "$PWD/.work/harness-setup"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY -help >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
echo "setup done"
