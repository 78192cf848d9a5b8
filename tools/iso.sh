#!/bin/bash
# iso.sh <name> <command...>: run a command with private copy-on-write views of /repo, /verif and /opt/vp (mount namespace); changes are discarded
n=$1; shift; w=/tmp/iso-$n
mkdir -p $w/{r,v,o}{u,w}
unshare -m bash -c '
w=$1; shift
mount --make-rprivate /
mount -t overlay overlay -o lowerdir=/repo,upperdir=$w/ru,workdir=$w/rw /repo &&
mount -t overlay overlay -o lowerdir=${VSNAP:-/verif},upperdir=$w/vu,workdir=$w/vw /verif &&
mount -t overlay overlay -o lowerdir=/opt/vp,upperdir=$w/ou,workdir=$w/ow /opt/vp || exit 99
cd /verif; exec "$@"' _ $w "$@"
rc=$?
rm -rf "$w"
exit $rc
