#!/bin/bash
# tools/seedshim.sh ID: copies the stand-in headers the demo of a planted change needs beside it
D=/verif/seeded/$1; cd /repo
S=$(sed -n 's/^S=""; for f in \(.*\); do S=.*/\1/p' $D/demo.sh)
g++ -std=c++17 -M -I/repo/SEUtils -I/repo/SEFramework -I/repo/SEImplementation -I/repo/ModelFitting -I/repo/SEMain -I/verif/shim $D/demo.cpp $S | tr ' \\' '\n\n' | grep ^/verif/shim/ | sort -u | while read f; do r=${f#/verif/shim/}; mkdir -p $D/$(dirname $r); cp $f $D/$r; done
