#!/bin/bash
# hunt.sh ID SUB SEEDS...: violations of one sub-check, briefly
[ -n "$R2" ] && export CG3_REPO=/tmp/w/repo2 CG3_VBUILD=/tmp/w/vb2
id=$1; sub=$2; shift 2
for s in "$@"; do VERIF_SEED=$s VERIF_SHRINK=${SHR:-15} timeout 900 python3 run.py $id quick --only=$sub 2>&1 | head -${HEAD:-70}; done
