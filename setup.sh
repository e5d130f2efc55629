#!/bin/bash
# Builds /repo's working tree, as the checks do (they build incrementally after this).
cd "$(dirname "$0")"
bash /opt/vp/build.sh
