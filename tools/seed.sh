#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo: the patch
# applies and touches no test, the tree builds and passes its tests, and the
# demonstration passes without it and fails with it.
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seed.$$; rm -rf /tmp/seed.$$; cp -a /repo $w; mkdir -p $w.demo; cp $d/* $w.demo/; rm -f $w.demo/*.diff $w.demo/meta.json
  cd $w; bad=
  for i in 1 2; do timeout 300 bash $w.demo/demo.sh >$w.out 2>&1 || { bad="$bad clean-demo-fails"; tail -5 $w.out; }; done
  git apply $d/patch.diff || bad="$bad no-apply"
  go build ./... >$w.out 2>&1 || bad="$bad no-build"
  for i in 1 2; do go test -count=1 ./... >$w.out 2>&1 || bad="$bad tests-fail"; done
  for i in 1 2 3; do timeout 300 bash $w.demo/demo.sh >$w.out 2>&1 && bad="$bad demo-passes"; done
  echo "$id${bad:- ok}: $(tail -1 $w.out | cut -c1-150)"
  cd /; rm -rf /tmp/seed.$$ /tmp/seed.$$.demo /tmp/seed.$$.out
done
