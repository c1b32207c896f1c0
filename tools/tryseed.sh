#!/bin/bash
# tryseed.sh ID...: demo on the unchanged tree and on the changed one, in scratch copies
for i in "$@"; do
S=/tmp/seedtry.$i; mkdir -p $S; cp -a /repo $S/repo 2>/dev/null
(cd $S/repo && git checkout -q -- . ; bash /verif/seeded/$i/demo.sh > $S/ok.log 2>&1; echo "$i unchanged: $?"
 git apply /verif/seeded/$i/patch.diff || echo "does not apply"
 bash /verif/seeded/$i/demo.sh > $S/bad.log 2>&1; echo "$i changed: $?"; tail -3 $S/bad.log)
rm -rf /tmp/seedtry.$i
done
