#!/bin/bash
# Builds all checks from the committed files (checks rebuild what /repo changes).
cd /verif || exit 1
bash tools/build_harness.sh $(ls harness/src/bin | sed 's/\.rs$//') || exit 1
bash tools/build_sched.sh $(ls sched/mc/src/bin | sed 's/\.rs$//') || exit 1
