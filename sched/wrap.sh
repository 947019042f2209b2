#!/bin/bash
# rustc wrapper: the crates of /repo are compiled with the ThreadSanitizer pass (the hooks it calls
# are ours), everything else plainly.
name=
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  probe|common|multi_target_decision_tree|multi_target_grad_boost)
    exec env RUSTC_BOOTSTRAP=1 "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
  ___|build_script_build)
    exec "$@" ;;
  *)
    exec env RUSTC_BOOTSTRAP=1 "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
