#!/bin/sh
# Build the harness and see that TLC accepts the specification.
set -e
cd "$(dirname "$0")/.."
python3 -c "
import sys
sys.path.insert(0, 'tools')
import vf
print(vf.build())
"
cd spec
for m in Check MCParse MCTrans MCText MCSelector MCStore MCReader; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /dev/null
done
echo ready
