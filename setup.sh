#!/bin/bash
# builds the C++ symbolic executor from the committed sources (everything else is built per check)
cd "$(dirname "$0")" && exec python3 -c "import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'engine'); import drive; drive.build_engine(); drive.ensure_rt(); print('engine ready')"
