"""Helper to write a planted bug: mk(id, [(file, old, new), ...], property, needs, what, demo_cpp [, libs])."""
import json, os, subprocess
S = '/tmp/seed/'
H = '''#include <eo>
#include <mo>
#include <moeo>
#include <cstdio>
#include <cmath>
#include <sstream>
#include <set>
#include <map>
typedef moeoRealObjectiveVector<moeoObjectiveVectorTraits> OV;
typedef MOEO<OV, double, double> Sol;
static Sol mk(double a, double b) { OV o; o[0] = a; o[1] = b; Sol s; s.objectiveVector(o); return s; }
'''
LIB = "eo/src/eoPersistent.cpp eo/src/eoPrintable.cpp eo/src/eoFunctorStore.cpp eo/src/eoScalarFitnessAssembled.cpp eo/src/utils/*.cpp moeo/src/core/moeoObjectiveVectorTraits.cpp"
def mk(id, edits, prop, needs, what, demo, extra=""):
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'])
    for f, a, b in edits:
        p = S + f
        s = open(p, encoding='latin-1', newline='').read()
        if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w', encoding='latin-1', newline='').write(s.replace(a, b))
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.run(['git', 'diff'], cwd=S, stdout=subprocess.PIPE).stdout)
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/sh
# builds and runs demo.cpp against the sources in the current directory
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
g++ -std=c++17 -w -O0 -pthread -Ieo/src -Imo/src -Imoeo/src -Iproblems -Iedo/src -Ismp/src %s "$here/demo.cpp" %s -o "$out/demo" && "$out/demo"
rc=$?
rm -rf "$out"
exit $rc
''' % (extra, LIB))
