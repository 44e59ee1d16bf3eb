#!/bin/bash
# ns.sh COPYDIR CMD...: run CMD where /repo and /verif/build are the private copies COPYDIR/repo and COPYDIR/build
c=$1; shift
exec unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/build" /verif/build && cd /verif && exec "$@"' "$c" "$@"
