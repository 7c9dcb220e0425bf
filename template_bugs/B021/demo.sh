#!/bin/bash
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export PYTHONPATH=$PWD/compiler/extensions/python/runtime/src:$D/gen ZSERIO_PYTHON_IMPLEMENTATION=python PYTHONDONTWRITEBYTECODE=1
mkdir -p $D/src
cat > $D/src/demo.zs <<'ZSEOF'
package demo;
struct E { uint32 off; uint8 a; off: uint8 b; };
struct S { bytes blob; packed E list[]; };
ZSEOF
B=$PWD/build/compiler
java -cp $(ls $B/core/17/jar/*.jar | grep -v -e javadocs -e sources | tr '\n' ':')$B/extensions/python/17/jar/zserio_python.jar zserio.tools.ZserioTool  -python $D/gen -src $D/src demo.zs
python3 - <<"PYEOF"
import zserio
import demo.api as api
s = api.S(bytearray(70000), [api.E(0, 1, 2)])
w = zserio.BitStreamWriter(); s.initialize_offsets(0); s.write(w)
PYEOF
