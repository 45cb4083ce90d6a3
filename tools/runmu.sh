#!/bin/bash
N=$1; shift
for s in $*; do (timeout 880 python3-vt /verif/tools/mutate.py /repo/src/mssm $N $s > /tmp/mu_$s.log 2>&1; echo rc $? >> /tmp/mu_$s.log)& done; wait; for s in $*; do grep "^{\|^rc" /tmp/mu_$s.log; done; for s in $*; do grep -h "^EQUAL\|^UNK\|^ERR" /tmp/mu_$s.log | cut -c1-230;done
