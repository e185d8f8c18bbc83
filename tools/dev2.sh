#!/bin/bash
# very compact run of one rule: message truncated
cd "$(dirname "$0")/.." && timeout 900 python3 check.py "$1" 2>&1 | grep -v '^ *key:' | grep -v '^    ' | cut -c1-"${3:-150}" | sed 's#src/pdfmm/##;s/mm:://g' | head -c "${2:-4000}"
