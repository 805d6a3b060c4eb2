#!/bin/bash
# catch.sh [-t TIER] [-c CHECK[,CHECK..]|own|all] [PATCHDIR..]: run checks against planted bugs (or any
# directory with patch.diff), each in a private mount namespace where copies stand at /repo and /verif.
tier=quick; checks=own; J=${J:-3}
while getopts t:c: o; do case $o in t) tier=$OPTARG;; c) checks=$OPTARG;; *) exit 2;; esac; done
shift $((OPTIND - 1))
cd /verif || exit 2
[ $# = 0 ] && set -- seeded/*
W=/tmp/catch.$$
mkdir -p $W
for k in $(seq $J); do
  mkdir -p $W/$k
  git clone -q /repo $W/$k/repo; cp -a /repo/Cargo.lock $W/$k/repo/ 2>/dev/null
  mkdir $W/$k/verif && cp -a /verif/. $W/$k/verif/ && find $W/$k/verif/replays -type f -delete
done
one() { # k patchdir
  k=$1; d=$2; id=$(basename $d)
  c=$checks
  [ $c = own ] && c=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ $c = all ] && c=$(seq -f C%02g -s, 1 24)
  git -C $W/$k/repo apply $(readlink -f $d/patch.diff) || { echo "$id does not apply"; return; }
  unshare -m bash -c "mount --bind $W/$k/repo /repo; mount --bind $W/$k/verif /verif; cd /verif
    for p in ${c//,/ }; do s=\$(date +%s); out=\$(timeout 1800 bash run.sh \$p $tier 2>&1); r=\$?; e=\$(( \$(date +%s)-s ))
      echo \"$id \$p exit=\$r \${e}s \$(echo \"\$out\" | grep -A1 -E '^  section' | head -1 | cut -c1-260)\"
      [ \$r -gt 1 ] && echo \"\$out\" | tail -5; done"
  git -C $W/$k/repo checkout -q -- .
}
printf '%s\n' "$@" > $W/list
touch $W/lock
worker() { while true; do
  d=$(flock $W/lock bash -c "head -1 $W/list; sed -i 1d $W/list"); [ -z "$d" ] && break
  one $1 $d; done; }
for k in $(seq $J); do worker $k & done
wait
find $W -depth -delete
