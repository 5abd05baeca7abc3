#!/bin/sh
# Everything a check needs is built by the check itself from the committed files and /repo's tree;
# this only shows that the tools are there and that the extractor builds.
set -e
command -v verus >/dev/null && command -v cargo >/dev/null && command -v python3 >/dev/null
t=$(mktemp -d)
(cd "$(dirname "$0")/extract" && cargo build --offline --quiet --target-dir "$t")
rm -r "$t"
