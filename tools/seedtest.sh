#!/bin/bash
# usage: seedtest.sh ID [demo] [check] [tests]
# try a planted bug in a copy of /repo, bound over /repo in a private mount namespace
id=$1; shift
what=${*:-demo check tests}
seed=/verif/seeded/$id
work=/tmp/seed-$id-$$
log=/tmp/seedlogs; mkdir -p $log
prop=$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
cp -a /repo "$work" || exit 1
trap 'rm -rf "$work"' EXIT
git -C "$work" apply "$seed/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
mkdir -p "$work.reports" "$work.demo"
cp -a "$seed/." "$work.demo/"; rm -f "$work.demo"/*.diff "$work.demo"/meta.json
trap 'rm -rf "$work" "$work.reports" "$work.demo"' EXIT
for w in $what; do
  case $w in
  demo)
    (cd /repo && timeout 300 bash "$work.demo/demo.sh" >$log/$id.demo0 2>&1); r0=$?
    unshare -m bash -c "mount --bind $work /repo; cd /repo; timeout 300 bash $work.demo/demo.sh" >$log/$id.demo1 2>&1; r1=$?
    if [ $r0 = 0 ] && [ $r1 != 0 ]; then echo "$id: demo ok"; else echo "$id: DEMO BAD unpatched=$r0 patched=$r1"; fi;;
  check)
    cp -a /verif "$work.verif"
    unshare -m bash -c "mount --bind $work /repo; cd $work.verif; VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./check.sh $prop quick" >$log/$id.check 2>&1; r=$?
    rm -rf "$work.verif"
    if [ $r = 1 ] && grep -q "^VIOLATION property=$prop" $log/$id.check; then echo "$id: caught by $prop"; else echo "$id: MISSED by $prop (rc $r)"; fi;;
  tests)
    unshare -m bash -c "mount --bind $work /repo; mount --bind $work.reports /opt/vp/reports; bash /opt/vp/test.sh $work.reports/out.json" >$log/$id.tests 2>&1
    python3 - "$id" "$work.reports/out.json" <<'P'
import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))
base = set(base['stable'])
got = json.load(open(sys.argv[2]))
bad = sorted(base - set(got['passed']))
print("%s: tests %s" % (sys.argv[1], "ok" if not bad else "BROKEN %d: %s" % (len(bad), bad[:4])))
P
    ;;
  esac
done
