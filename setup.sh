#!/bin/bash
# Nothing to compile: make sure the interpreter and the code under test are there.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p evidence/replay
python -W ignore -c "import torch, sys; sys.path.insert(0, '/repo'); import lib.mon" 
