#!/bin/bash
# seedns.sh spec.py [ids]: runs seed.py against a scratch copy of /repo that is mounted over it in a private namespace
W=$(mktemp -d /tmp/seedw.XXXXXX); cp -a /repo/. $W/
unshare -Urm bash -c 'mount --bind "$0" /repo && shift 0 && exec python3 /verif/tools/seed.py "$@"' "$W" "$@"
rm -r "$W"
