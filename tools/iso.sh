#!/bin/bash
# iso.sh PATCH|- CMD...: runs CMD with a private patched copy of /repo mounted over /repo (evidence and scratch private too)
patch=$1; shift
t=$(mktemp -d /tmp/isoXXXXXX)
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"
[ "$patch" = - ] || git -C "$t/repo" apply "$patch" || { echo "patch does not apply"; exit 9; }
mkdir "$t/work" "$t/ev" "$t/iso"
mkdir -p /tmp/iso /verif/evidence
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/iso" /tmp/iso && mount --bind "$0/work" /opt/vp/work && mount --bind "$0/ev" /verif/evidence && cd /repo && exec "$@"' "$t" "$@"
rc=$?
rm -rf "$t"
trap - EXIT
exit $rc
