#!/bin/bash
# run.sh ARGS: builds the executor when needed and runs it.
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
stale=1
if [ -x bin/gosym ] && [ -z "$(find engine -newer bin/gosym -print -quit)" ]; then stale=0; fi
if [ $stale = 1 ]; then
  mkdir -p bin
  t=bin/gosym.$$
  (cd engine && go build -o "../$t" .) >&2 || { echo "building the executor failed" >&2; exit 2; }
  mv "$t" bin/gosym
fi
[ "${1:-}" = build ] && exit 0
exec ./bin/gosym "$@"
