#!/bin/bash
# dev helper: run1.sh UNIT [verus args]
u=$1; shift
/verif/.build/vx/debug/vx /verif/units/$u.vt ${REPO:-/repo} /tmp/p/$u.rs /tmp/p/$u.json || { cat /tmp/p/$u.json | sed -n '/lost/,$p'; }
verus --edition 2024 --no-auto-recommends-check --triggers-mode silent /tmp/p/$u.rs "$@" 2>&1 | grep -v '^\[rust_verify' 
