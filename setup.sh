#!/bin/bash
# Warm the build caches; checks rebuild what they need anyway.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" "" || exit 1
bash "$here/build.sh" race || exit 1
bash "$here/build.sh" asan || exit 1
