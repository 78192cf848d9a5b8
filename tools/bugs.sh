#!/bin/bash
# bugs.sh [-j N] id... : plant each bug in an isolated view (of a snapshot of /verif) and run its property's check; one line per bug in /tmp/bugs.log
j=3; [ "$1" = -j ] && { j=$2; shift 2; }
cd /verif; [ $# = 0 ] && set -- $(ls seeded)
export VSNAP=/tmp/vsnap-$$; cp -a /verif $VSNAP
printf '%s\n' "$@" | xargs -P $j -I{} bash -c 'p=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/{}/meta.json\"))[\"property\"])"); tools/iso.sh {} tools/plant.sh {} $p > /tmp/bug-{}.log 2>&1; echo "$(grep -h "^{}:" /tmp/bug-{}.log) | $(grep -h ^check /tmp/bug-{}.log)" >> /tmp/bugs.log'
rm -rf "/tmp/vsnap-$$"
