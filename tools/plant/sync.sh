#!/bin/bash
# refresh /tmp/sb2/verif from /verif
mkdir -p /tmp/sb2/verif
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ /tmp/sb2/verif/ 2>/dev/null || { cd /verif && tar cf - --exclude=target --exclude=.git --exclude=evidence --exclude=replays --exclude=seeded . | tar xf - -C /tmp/sb2/verif; }
sed -i 's#/repo/lib#/tmp/sb2/repo/lib#' /tmp/sb2/verif/harness/Cargo.toml
