#!/bin/bash
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export PYTHONPATH=$PWD/compiler/extensions/python/runtime/src:$D/gen ZSERIO_PYTHON_IMPLEMENTATION=python PYTHONDONTWRITEBYTECODE=1
mkdir -p $D/src
cat > $D/src/demo.zs <<'ZSEOF'
package demo;
struct E { optional uint8 a : a < 100; };
struct R { optional uint8 a; };
struct S { packed E list[]; };
struct T { packed R list[]; };
ZSEOF
B=$PWD/build/compiler
java -cp $(ls $B/core/17/jar/*.jar | grep -v -e javadocs -e sources | tr '\n' ':')$B/extensions/python/17/jar/zserio_python.jar zserio.tools.ZserioTool  -python $D/gen -src $D/src demo.zs
python3 - <<"PYEOF"
import zserio
import demo.api as api
w = zserio.BitStreamWriter(); api.T([api.R(7), api.R(200)]).write(w)
try:
    api.S.from_reader(zserio.BitStreamReader(w.byte_array))
except zserio.PythonRuntimeException:
    pass
else:
    raise AssertionError("read")
PYEOF
