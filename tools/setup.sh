#!/bin/bash
# builds the extractor and the harness (the checks also do this themselves)
cd "$(dirname "$0")/.." || exit 1
python3 - <<'PY'
import sys; sys.path.insert(0, 'tools')
import check
print(check.build_extractor()[0], check.build_harness()[0], check.build_expansion(check.BUILD)[0])
PY
