#!/bin/bash
# checks that the tools are there and warms the object cache of the bounded harness
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3'
command -v clang++ objcopy >/dev/null
python3-vt - <<'PY'
import sys
sys.path[:0] = ['engine', 'specs']
import bounded, registry
seen = set()
for c in registry.PROPS.values():
    for h in c.get('harness', []):
        k = (h[0], h[1], str(h[3:]))
        if k not in seen:
            seen.add(k)
            try:
                bounded.build_harness(h[0], h[1], **(h[3] if len(h) > 3 else {}))
            except Exception as e:
                print('note: %s' % e)
PY
