#!/bin/bash
# go.sh ID: quick check with a short report
cd "$(dirname "$0")/.."
(time python3 tools/check.py $1 --tier ${2:-quick}) 2>&1 | grep -E "error|VIOLATION|KNOWN|real|cases|warning" | cut -c1-600
python3 tools/viol.py $1 | cut -c1-1200 | head -${3:-30}
