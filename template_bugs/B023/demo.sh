#!/bin/bash
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export PYTHONPATH=$PWD/compiler/extensions/python/runtime/src:$D/gen ZSERIO_PYTHON_IMPLEMENTATION=python PYTHONDONTWRITEBYTECODE=1
mkdir -p $D/src
cat > $D/src/demo.zs <<'ZSEOF'
package demo;
struct S { bool has; uint8 list[2] if has; uint8 tail; };
ZSEOF
B=$PWD/build/compiler
java -cp $(ls $B/core/17/jar/*.jar | grep -v -e javadocs -e sources | tr '\n' ':')$B/extensions/python/17/jar/zserio_python.jar zserio.tools.ZserioTool  -python $D/gen -src $D/src demo.zs
python3 - <<"PYEOF"
import zserio
import demo.api as api
s = api.S(True, [1, 2, 3], 4)
try:
    s.write(zserio.BitStreamWriter())
except zserio.PythonRuntimeException:
    pass
else:
    raise AssertionError("written")
PYEOF
