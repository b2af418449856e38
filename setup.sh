#!/bin/bash
# Nothing to build: checks that the tools and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import markdown_it; from vp import target; import vp.checks.c01' && mkdir -p evidence replays
