#!/bin/sh
cd "$(dirname "$0")/../spec" && for f in ${*:-*.tla}; do f=${f#spec/}; java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $f 2>&1 | grep -E "rror|Multiple|conflict|Could not|nknown" -A4; done; true
