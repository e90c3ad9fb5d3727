#!/bin/sh
# addfix PROP "text" : records the last /repo commit
echo "fixed: property=$1 $(git -C /repo log -1 --format=%h) $2" >> /verif/known_findings.txt
