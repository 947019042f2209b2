#!/bin/bash
# check.sh ID: builds the check of property ID from /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not run.
id="$1"
bin="p_$(echo "$id" | tr 'A-Z' 'a-z')"
log=$(mktemp)
case "$id" in
  C0*) build=/verif/tools/build_sched.sh; exe=/verif/.build/sched/release/$bin ;;
  *)   build=/verif/tools/build_harness.sh; exe=/verif/.build/harness/release/$bin ;;
esac
if ! bash "$build" "$bin" >"$log" 2>&1; then
  tail -40 "$log" >&2
  echo "check $id: the build failed" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
exec "$exe"
