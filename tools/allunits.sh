#!/bin/bash
# verify all units named in config, in parallel; print bad ones
cd "$(dirname "$0")/.."
us=$(python3 -c "
import sys; sys.path.insert(0,'tools'); import config
print(' '.join(sorted({u for p in config.PROPS.values() for u in p.get('units',[])})))")
echo $us | tr ' ' '\n' | xargs -P 3 -I{} sh -c 'python3 tools/unit.py {} > /tmp/au_{}.log 2>&1; e=$(grep -c "^error" /tmp/au_{}.log); n=$(grep "^not_extracted" /tmp/au_{}.log); r=$(grep "^errors" /tmp/au_{}.log); echo "{} $r $n"' | grep -v "^throws " | grep -v "errors 1 not_extracted {}$"
echo done
