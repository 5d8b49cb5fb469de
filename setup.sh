#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo's tree.
# This only verifies that the tools the checks use are present.
set -e
for t in g++ make python3; do command -v $t >/dev/null; done
mkdir -p /verif/evidence /verif/build
