#!/bin/bash
# development helper: build once into /tmp/vdev and run with flags
. /opt/vp/env.sh
bash /verif/build.sh ${1:-C01} /tmp/vdev /repo
