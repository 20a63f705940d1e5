#!/bin/bash
# selftest.sh: the explorer must find exactly the outcomes that small programs
# (selftest/lit) can have, and running them natively must show no others.
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR="$PWD" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
rm -rf build/self && mkdir -p build/self
go run ./cmd/instr -src selftest/lit -out build/self/inst -harness selftest/run || exit 2
(cd build/self/inst && go build -o ../run ./mcharness/run) || exit 2
for s in $(build/self/run -list); do
	build/self/run -scenario "$s" -sec 60 -out "build/self/$s.json" || exit 2
done
python3 - <<'P' || exit 1
import json, glob
bad = n = ex = 0
for f in sorted(glob.glob('build/self/*.json')):
    r = json.load(open(f))
    want, got = set(r['doc'].split()), set(r.get('outcomes') or [])
    n += 1; ex += r['executions']
    if want != got or r['violations'] or not r['all_schedules']:
        bad += 1
        print('explorer:', r['scenario'], 'want', sorted(want), 'got', r.get('outcomes'), 'all schedules', r['all_schedules'], [(v['kind'], v['message'][:200]) for v in r['violations'] or []])
print('explorer: %d programs, %d executions, %d wrong' % (n, ex, bad))
raise SystemExit(bad > 0)
P
(cd selftest/native && go run .)
