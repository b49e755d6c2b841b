#!/bin/bash
# run with cwd /repo; compiles the demonstration against the current sources
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$dir"' EXIT
rc=0
for dim in DIMS; do
  g++ -std=gnu++17 -O1 -w -DEXT_GDIMENSION=$dim -DPARALLEL_IO -DLOG_STRIP_LEVEL=0 -DOMPI_SKIP_MPICXX \
    -I"$repo/include" -I"$repo/include/physics" -I"$repo/include/physics/eos" -I"$repo/mpisph" -I"$repo/app/drivers/include" \
    -I"$repo/include/tree_topology" -I"$repo/app/id_generators" -I"$repo/app/id_generators/include" -I"$repo/app" -I"$here" -I"$here/stub" \
    -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/include/hdf5/openmpi \
    "$here/demo.cc" -o "$dir/demo$dim" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lmpi -lhdf5 || exit 2
  (cd "$dir" && timeout 100 "./demo$dim") || rc=1
done
exit $rc
