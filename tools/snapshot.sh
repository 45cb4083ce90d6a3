#!/bin/bash
# Re-create the reviewed reference model from /repo's HEAD (done by hand after a review, never by a check).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
rm -rf "$here/spec/ref"
mkdir -p "$here/spec/ref"
cd /repo && git archive HEAD src/mssm | tar -x -C "$here/spec/ref" --strip-components=2
find "$here/spec/ref" -type f ! -name '*.py' ! -name '*.cpp' ! -name '*.h' ! -name '*.hpp' -delete
find "$here/spec/ref" -type d -empty -delete
