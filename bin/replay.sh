#!/bin/bash
# replay.sh FILE: execute a recorded violation again, with the full log
V=$(cd "$(dirname "$0")/.." && pwd)
"$V/bin/build.sh" || exit 2
exec "$V/target/release/lxisim" replay "$@"
