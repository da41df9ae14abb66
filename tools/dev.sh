#!/bin/bash
# dev.sh DRIVER MODULE PROP [seed] [tier] [extra driver args]: run one driver and its trace specification
V="$(cd "$(dirname "$0")/.." && pwd)"
W="$(mktemp -d /dev/shm/dev.XXXX)"; O="/tmp/dev.$3.ndjson"
cd "$W" && time PYTHONHASHSEED=0 PYTHONPATH="$V/lib:$V/drivers" /opt/venv/bin/python -B "$V/drivers/$1" --out "$O" --work "$W" --tier "${5:-quick}" --seed "${4:-1}" --prop "$3" "${@:6}"
wc "$O"
cd "$V/spec" && time TRACE="$O" PROP="$3" java -XX:+UseParallelGC -Xmx6g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir "$W/m" -config "$2.cfg" "$2.tla" | sed -n '/Computing initial/,$p' | cut -c1-3000 | head -60
rm -rf -- "$W"
