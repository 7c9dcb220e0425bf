#!/bin/bash
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export PYTHONPATH=$PWD/compiler/extensions/python/runtime/src:$D/gen ZSERIO_PYTHON_IMPLEMENTATION=python PYTHONDONTWRITEBYTECODE=1
mkdir -p $D/src
cat > $D/src/demo.zs <<'ZSEOF'
package demo;
struct E(uint8 size, uint32 idx) { uint8 a if idx > 0; uint8 b; };
struct S { packed E(3, @index) list[]; };
ZSEOF
B=$PWD/build/compiler
java -cp $(ls $B/core/17/jar/*.jar | grep -v -e javadocs -e sources | tr '\n' ':')$B/extensions/python/17/jar/zserio_python.jar zserio.tools.ZserioTool  -python $D/gen -src $D/src demo.zs
python3 - <<"PYEOF"
import zserio
import demo.api as api
s = api.S([api.E(3, 0, None, 1), api.E(3, 1, 2, 3)])
w = zserio.BitStreamWriter(); s.write(w)
assert api.S.from_reader(zserio.BitStreamReader(w.byte_array, w.bitposition)) == s
PYEOF
