#!/bin/bash
# addfix.sh PROP "what failed": record the last /repo commit as a repaired finding
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/KNOWN_FINDINGS.txt
