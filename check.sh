#!/bin/bash
# check.sh ID: decides one property against /repo's working tree. Exit 0 held, 1 violated, 3 undecided.
cd "$(dirname "$0")" || exit 3
id=$1
case $id in
  C*) dir=conc bin= ;;
  V*) dir=conc bin=mcver ;;
  M08) dir=seq bin=traced ;;
  M*) dir=seq bin= ;;
  P*) dir=comp bin= ;;
  *) echo "unknown property $id"; exit 3 ;;
esac
bin=$("./$dir/build.sh" $bin 2>/tmp/vbuild.$$ | tail -1)
if [ ! -x "$bin" ]; then
  tail -40 /tmp/vbuild.$$; rm -f "/tmp/vbuild.$$"
  echo "could not build the harness"; exit 3
fi
rm -f "/tmp/vbuild.$$"
exec "$bin" check "$id" "$PWD"
