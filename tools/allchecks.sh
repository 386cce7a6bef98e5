#!/bin/sh
# allchecks.sh [DIR]: every check of the manifest against DIR (default /repo)
cd "$(dirname "$0")/.." && python3 check.py $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])") --repo "${1:-/repo}"
