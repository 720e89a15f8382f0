#!/bin/bash
# run a check, short output
timeout ${T:-900} python3 /verif/check.py "$1" ${2:-quick} 2>&1 | cut -c1-${W:-330} | tail -${N:-40}
