#!/bin/sh
# newbug.sh ID PROPERTY: takes the working-tree change of the scratch copy /tmp/bug/repo as seeded/ID/patch.diff, resets the copy
D="$(cd "$(dirname "$0")/.." && pwd)/seeded/$1"; mkdir -p $D
git -C /tmp/bug/repo diff > $D/patch.diff; git -C /tmp/bug/repo checkout -q -- .; wc -l $D/patch.diff
