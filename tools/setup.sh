#!/bin/bash
# Builds the verifier; every check also does this when bin/govc is missing or old.
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh
mkdir -p bin
(cd govc && go build -o ../bin/govc.$$ . && mv ../bin/govc.$$ ../bin/govc)
(cd /repo && go build ./... )
