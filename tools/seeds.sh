#!/bin/bash
# bash tools/seeds.sh ID [seeds...]: run a check with several seeds
id=$1; shift
for s in ${@:-1 2 3 4 5}; do VERIF_SEED=$s bash "$(dirname "$0")/../run.sh" $id | tail -4; [ ${PIPESTATUS[0]} = 0 ] || echo "seed $s: NOT QUIET"; done
