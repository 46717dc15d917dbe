#!/bin/bash
# psurvey.sh ID lo hi [procs] : survey on 8 processes (development aid)
id=$1; lo=$2; hi=$3; st=$(( (hi-lo+31)/32 ))
b=/tmp/dst.survey.$$; cp "$(dirname "$0")/../target/debug/dst" $b
for ((a=lo;a<hi;a+=st)); do echo $a $((a+st<hi?a+st:hi)); done | xargs -P ${4:-8} -L1 $b survey $id
rm -f $b
