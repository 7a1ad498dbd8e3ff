#!/bin/bash
# builds the extractor; the checks do it themselves where this was not run
cd "$(dirname "$0")" || exit 1
exec python3 -B -c "import sys; sys.path.insert(0, 'sa'); import prog; print(prog.tool_path())"
