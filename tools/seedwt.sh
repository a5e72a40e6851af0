#!/bin/bash
# seedwt.sh: (re)create the scratch copy /tmp/seedwt of /repo's HEAD
git -C /repo worktree remove --force /tmp/seedwt 2>/dev/null; git -C /repo worktree prune
git -C /repo worktree add -q --detach /tmp/seedwt HEAD
mkdir -p /tmp/seedverif; ln -sfn /verif/contracts /tmp/seedverif/contracts; ln -sfn /verif/replay /tmp/seedverif/replay; ln -sfn /verif/known-findings.txt /tmp/seedverif/known-findings.txt
