#!/bin/bash
# Nothing to build ahead: every check compiles the harness from /repo's working
# tree. This only makes sure the tools are there and the specification parses.
cd "$(dirname "$0")/../spec" || exit 1
for t in java g++ python3; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
for m in StepTrace ApiTrace Machine Tight ScoreLaws CallsTrace ParamsTrace ContainersTrace StatTrace EpochsTrace Batch Threads; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
exit 0
