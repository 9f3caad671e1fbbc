#!/bin/bash
# builds the compiler driver and the elimination kernel
cd "$(dirname "$0")/sa" || exit 1
python3 -c 'import base; print(base.driver())' && python3 -c 'import terms'
