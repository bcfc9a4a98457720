#!/bin/bash
# pall.sh PREFIX: all proofs whose name starts so
cd /verif
for p in $(python3-vt -c "
import sys; sys.path[:0]=['/verif/ortv','/verif/specs']
import proofs; print(' '.join(k for k in proofs.PROOFS if k.startswith('$1')))"); do echo $p; done | xargs -P ${J:-4} -I{} sh -c 'PR=$(mktemp) tools/prove.sh {} 2>&1 | head -4 | cut -c1-220'
