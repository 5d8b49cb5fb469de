#!/bin/bash
# which removed lines of each planted bug are lines of the original repository
base=43908fc
for d in /verif/seeded/*/; do n=0; o=0; f=""
while IFS= read -r l; do case "$l" in "--- a/"*) f=${l#--- a/};; "-"*) n=$((n+1)); git -C /repo show $base:$f | grep -qxF -- "${l#-}" && o=$((o+1));; esac; done < $d/patch.diff
echo "$(basename $d) removed=$n original=$o"; done
