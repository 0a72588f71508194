#!/bin/bash
# tools/ns.sh COMMAND...: run COMMAND with scratch copies of /repo and /verif mounted over the real ones (not used by any check)
D=$(mktemp -d /tmp/ns.XXXXXX); cp -a /repo "$D/repo"; cp -a /verif "$D/verif"
unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && shift 0 && cd /verif && "$@"' "$D" "$@"
rc=$?; case "$D" in /tmp/ns.*) rm -rf "$D";; esac; exit $rc
