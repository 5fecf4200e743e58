#!/bin/bash
# fixed.sh PID "text" [commit]: record the (last) fix commit of /repo in known_findings.txt
cd "$(dirname "$0")/.." && echo "fixed: property=$1 ${3:-$(git -C /repo log -1 --format=%h)} $2" >> known_findings.txt
