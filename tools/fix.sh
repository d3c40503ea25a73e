#!/bin/bash
# usage: tools/fix.sh "fix: message"   -- build, run the stable tests, commit /repo
set -e
bash /opt/vp/build.sh >/tmp/fix_build.log 2>&1 || { tail -40 /tmp/fix_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix_test.json 2>&1 | tail -1
cd /repo; git add -A; git commit -qm "$1"; git log --oneline -1
