#!/bin/bash
# offline: builds the replay crate against /repo so that a broken toolchain shows early
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True
from vf import build
build.replay(); build.afmt(); build.rsdump()"
