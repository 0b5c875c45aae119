#!/bin/bash
# Nothing is kept between runs: just show that the framework's parts build and import offline.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import hypothesis, sys; sys.path.insert(0, "lib"); import pbt, lang'
d=$(mktemp -d /tmp/ohsetup.XXXXXX)
bash lib/build.sh "$d" srv > "$d/log" 2>&1 || { tail -20 "$d/log"; rm -rf "$d"; exit 1; }
rm -rf "$d"
