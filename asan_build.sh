#!/bin/bash
# Builds /repo's working tree with the address and undefined-behaviour sanitizers in /verif/.build/asan.
set -eo pipefail
export HOME=/root LANG=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++ PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
here="$(cd "$(dirname "$0")" && pwd)"
B="$here/.build/asan"
mkdir -p "$B"
cmake -S /repo -B "$B" -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=None -DBUILD_TESTING=OFF -DPYBUILD=ON \
  -DPYTHON_EXECUTABLE=/opt/vp/venv/bin/python -DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF \
  -DCMAKE_CXX_FLAGS="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,integer-divide-by-zero,bounds,unreachable,return -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -Wno-error -I/opt/vp/cmake/include" \
  -DCMAKE_PROJECT_awkward_INCLUDE=/opt/vp/cmake/system-pybind11.cmake
ninja -C "$B" -j8
rm -rf "$B/pkg"
mkdir "$B/pkg"
cp -rs /repo/src/awkward "$B/pkg/awkward"
ln -s "$B"/_ext.*.so "$B"/libawkward*.so "$B/pkg/awkward/"
