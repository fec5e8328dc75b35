#!/bin/bash
# compare a scratch copy with a seeded change applied: tools/seedcmp.sh ID...
[ -d /tmp/mk/wt ] || { mkdir -p /tmp/mk; cp -a /repo /tmp/mk/wt; }
for s in "$@"; do
  git -C /tmp/mk/wt checkout -q -- . ; git -C /tmp/mk/wt apply "$(ls -d /verif/seeded/$s*)/patch.diff"
  echo "== $s"; python3 /verif/tools/cmp.py /tmp/mk/wt | cut -c1-${W:-900}
  git -C /tmp/mk/wt checkout -q -- .
done
