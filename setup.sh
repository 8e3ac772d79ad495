#!/bin/bash
# builds bin/joycheck from joycheck/, offline
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd joycheck && go build -o ../bin/joycheck.tmp$$ . && mv ../bin/joycheck.tmp$$ ../bin/joycheck
