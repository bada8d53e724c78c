#!/bin/sh
# Nothing has to be installed; checks build what they need from /repo's working tree.
cd "$(dirname "$0")" && python3-vt -c "import hypothesis, numpy, scipy" && g++ --version >/dev/null
