#!/bin/bash
# Build everything the checks need, offline.
set -e
cd "$(dirname "$0")/.."
python3 -c '
import sys; sys.path.insert(0, "bin")
import check, typed, snippets, sanitize
check.build()
typed.generator()
snippets.library()
sanitize.build()
'
