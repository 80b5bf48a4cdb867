#!/bin/bash
# usage: revtest.sh COMMIT CHECK [CASE]: undo a repair in a copy of /repo and run a check there
work=/tmp/rev-$1-$$
cp -a /repo $work; cp -a /verif $work.verif
trap 'rm -rf "$work" "$work.verif"' EXIT
git -C $work revert -n $1 || exit 1
unshare -m bash -c "mount --bind $work /repo; cd $work.verif; ./check.sh $2 quick $3" 2>&1 | tail -${4:-15}
