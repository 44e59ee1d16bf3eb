#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
B=/repo/_build; S=/opt/vp/venv/lib/python3.12/site-packages
export LD_LIBRARY_PATH=$B/lib:$S/eckitlib/lib64:$S/metkitlib/lib64:$S/eccodeslib/lib64:$S/eckitlib.libs
g++ -std=c++17 -O0 -w -rdynamic -I/repo/src -I$B/src -I$S/eckitlib/include -I$S/metkitlib/include -I$S/eccodeslib/include \
  "$here"/*.cc -o "$T/drv" -L$B/lib -lfdb5 -L$S/eckitlib/lib64 -leckit -L$S/metkitlib/lib64 -lmetkit -L$S/eccodeslib/lib64 -leccodes \
  -Wl,-rpath-link,$S/eckitlib/lib64:$S/metkitlib/lib64:$S/eccodeslib/lib64:$S/eckitlib.libs:$B/lib -lpthread || { echo "demo does not compile"; exit 2; }
mkdir "$T/w" "$T/home"
cd "$T/w" && timeout 250 python3 "$here/demo.py" "$T"
