#!/bin/bash
# Builds the monitors and packs the JDK's classes, offline, from the committed files.
set -u
cd /verif
. /verif/tools/build.sh
mkdir -p target scratch replays evidence
build dev || exit 1
build ts || exit 1
build raw || exit 1
for v in miri32 miribe mirits asan tsan; do
    small $v >/dev/null || echo "no $v"
done
python3 /verif/tools/jdkpack.py /verif/target/jdk.pack 30000 || echo "no JDK classes"
exit 0
