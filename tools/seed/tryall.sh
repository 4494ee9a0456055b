#!/bin/bash
# runs try.sh on all seeded changes (or those given), 2 at a time
cd /verif/seeded; printf '%s\n' ${@:-*} | xargs -P 2 -n 1 /verif/tools/seed/try.sh
