#!/bin/bash
# builds one harness and prints its command
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'.'); import check
try: print(' '.join(check.build('$1')))
except check.Broken as e: print(e); sys.exit(1)"
