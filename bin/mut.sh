#!/bin/bash
# mut.sh PATCH PROP... : run checks against a scratch copy of /repo with PATCH applied
set -e
wt=$(mktemp -d /tmp/mut.XXXX)
git -C /repo worktree add -q --detach "$wt/r" HEAD
trap 'git -C /repo worktree remove --force "$wt/r" >/dev/null 2>&1; rmdir "$wt"' EXIT
git -C "$wt/r" apply "$(realpath "$1")"; shift
for p in "$@"; do VT_REPO="$wt/r" python3 "$(dirname "$0")/check.py" "$p" | cut -c1-400 || true; done
