#!/bin/bash
# coverage.sh OUT : line coverage of libkml by all monitors (at a tenth of the quick size)
set -u
O=$1; mkdir -p $O; cd "$(dirname "$0")/.."
export VERIF_KIND=cov LLVM_PROFILE_FILE=$O/%p-%m.profraw
for i in $(seq -w ${2:-1} 34); do
  [ $i = 25 ] && continue
  n=$(python3 -c "import mon.c$i as m; print(max(400, m.CASES['quick']//10))")
  python3 check.py C$i --cases $n | tail -1 | cut -c1-100
  llvm-profdata-18 merge -o $O/new.profdata $O/*.profraw $( [ -f $O/all.profdata ] && echo $O/all.profdata ) && mv $O/new.profdata $O/all.profdata
  rm -f $O/*.profraw
done
B=$(ls -t build/kmlmon-cov-* | head -1)
llvm-cov-18 report $B -instr-profile=$O/all.profdata > $O/report.txt
llvm-cov-18 show $B -instr-profile=$O/all.profdata > $O/show.txt
