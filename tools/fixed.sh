#!/bin/bash
# lists the fix commits of /repo, to keep known_findings.txt in step
git -C /repo log --format='%h %s' | grep ' fix:'
