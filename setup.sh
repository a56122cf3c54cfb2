#!/bin/bash
# builds the MIR exporter and the analysis dependencies (checks do the same on demand)
cd "$(dirname "$0")" && python3 - <<'E'
import check
try:
    print(check.export()[0])
except check.ExportFailed as e:
    print(e)
E
