#!/bin/bash
# tools/fx.sh PROP "what failed": commit /repo's working tree as a fix: commit and record it
git -C /repo commit -qam "fix: $2" && echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/known-findings.txt
