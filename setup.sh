#!/bin/bash
# builds the MIR dumper and the dependencies that the checks need
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/tools/mir.sh" "$here/.build/mir" || exit 1
# builds the replay harness; a check that finds it missing builds it again
bash "$here/tools/harness.sh" || true
