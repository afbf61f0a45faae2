#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] | check.sh PROPERTY --replay FILE
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V"
P="$1"; shift
case "$P" in
  P01|P02|P07) BIN=tally;;
  P03|P04|P05|P06|P09) BIN=lifecycle;;
  D01|D02|D03) BIN=prepropose;;
  C01|C02) BIN=core;;
  V01|V02|V03|V04) BIN=voting;;
  S01|R01|R04) BIN=staking;;
  R02|R03) BIN=rewards;;
  F01|F02) BIN=vesting;;
  F03|F04|F05|F06) BIN=external;;
  F07) BIN=libs;;
  M01) BIN=migrate;;
  P08|C03|V05|S02) BIN=setup;;
  *) echo "unknown property $P" >&2; exit 2;;
esac
python3 "$V/tools/build.py" $BIN || exit 2
if [ "$1" = "--replay" ]; then exec "$V/target/release/$BIN" --replay "$2"; fi
exec "$V/target/release/$BIN" "$P" "${1:-${VERIF_TIER:-quick}}"
