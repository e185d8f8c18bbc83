#!/bin/bash
# mutns.sh script.py: runs a mutation script (from mut import *) against a scratch copy of /repo mounted over it
W=$(mktemp -d /tmp/mutw.XXXXXX); cp -a /repo/. $W/
PYTHONPATH=/verif/tools unshare -Urm bash -c 'mount --bind "$0" /repo && exec python3 "$@"' "$W" "$@"
rm -r "$W"
