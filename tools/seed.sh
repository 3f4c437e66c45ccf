#!/bin/bash
# seed.sh NAME...: copies a confirmed planted bug from /tmp/sb into seeded/
for n in "$@"; do d=/verif/seeded/$n; mkdir -p $d; cp /tmp/sb/$n/{patch.diff,demo.sh,demo.rs,crate,meta.json} $d/; done
