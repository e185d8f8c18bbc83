#!/bin/bash
# compact run of one rule during development
cd "$(dirname "$0")/.." && timeout 900 python3 check.py "$1" 2>&1 | grep -v '^ *key:' | head -c "${2:-5000}"
