#!/bin/bash
# build_harness.sh OUTDIR model|cont...: compiles the library from /repo's
# working tree and the harness programs into OUTDIR.
set -u
OUT=$1; shift
R=${REPO:-/repo}
H=$(cd "$(dirname "$0")/../harness" && pwd)
mkdir -p "$OUT"
PRE="-include cstdint"
[ -f /opt/vp/support/prefix.hpp ] && PRE="-include /opt/vp/support/prefix.hpp"
CXX=${CXX:-g++}
FL="-std=c++17 -O2 -DNDEBUG -fopenmp -w $PRE -I$R/lib/include -I$R/lib/src"
cd "$OUT" || exit 2
: > jobs
want() { for t in $WANT; do [ "$t" = "$1" ] && return 0; done; return 1; }
WANT="$*"
LIB=""
if want model; then
  for p in "$R"/lib/src/*.cpp; do
    b=$(basename "$p" .cpp)
    [ "$b" = dummy ] && continue
    echo "$CXX $FL -c $p -o lib_$b.o" >> jobs
    LIB="$LIB lib_$b.o"
  done
  echo "$CXX $FL -O1 -I$H -c $H/main.cpp -o h_main.o" >> jobs
  echo "$CXX $FL -O1 -I$H -c $H/make_args.cpp -o h_args.o" >> jobs
fi
want cont && for s in $H/containers*.cpp; do
  echo "$CXX $FL -O1 -I$H -c $s -o c_$(basename "$s" .cpp).o" >> jobs
done
# the slowest files first
(grep -E 'lib_tsetlini.o|json|params|h_|c_' jobs; grep -vE 'lib_tsetlini.o|json|params|h_|c_' jobs) | tr '\n' '\0' | xargs -0 -P 10 -I{} sh -c '{}' 2> errors.txt
rc=0
if want model; then
  if [ ! -f h_main.o ] || [ ! -f h_args.o ]; then
    # private headers changed shape: use the saved form of the models instead
    $CXX $FL -O1 -DHARNESS_JSON_VIEW -I$H -c $H/main.cpp -o h_main.o 2>> errors.txt &
    $CXX $FL -O1 -DHARNESS_JSON_VIEW -I$H -c $H/make_args.cpp -o h_args.o 2>> errors.txt
    wait
    echo json > view
  fi
  $CXX -fopenmp h_main.o h_args.o $LIB -o harness 2>> errors.txt || rc=2
fi
if want cont; then $CXX -fopenmp c_*.o -o containers 2>> errors.txt || rc=2; fi
[ $rc = 0 ] || { tail -40 errors.txt >&2; }
exit $rc
