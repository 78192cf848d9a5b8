#!/bin/bash
# builds the MIR extractor, the dumps and the replay programs; every check rebuilds what it needs if this is missing
cd "$(dirname "$0")" || exit 1
python3-vt -m rvc.selftest 400 || exit 1
python3-vt -c "
from rvc import props
props.setup()
"
