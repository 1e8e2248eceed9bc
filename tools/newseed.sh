#!/bin/bash
# newseed.sh: resets the scratch copy /tmp/seed/repo to /repo's HEAD.
mkdir -p /tmp/seed
[ -d /tmp/seed/repo ] || cp -a /repo /tmp/seed/repo
git -C /tmp/seed/repo fetch -q /repo HEAD && git -C /tmp/seed/repo reset -q --hard FETCH_HEAD
