#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "what it breaks" ["sources for the demo, relative to /repo"] ["extra link flags"] < demo.cpp ; takes the diff from /repo's working tree and reverts it
set -e
R=${R:-/repo}; D=/verif/seeded/$1; mkdir -p $D
cat > $D/demo.cpp
git -C $R diff > $D/patch.diff
git -C $R checkout -- .
test -s $D/patch.diff
python3 - "$D" "$2" "$3" "$4" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
cat > $D/demo.sh <<SH
#!/bin/bash
# run with cwd /repo: builds demo.cpp against the current tree and runs it
H=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
S=""; for f in $5; do S="\$S \$PWD/\$f"; done
g++ -std=c++17 -O1 -I\$PWD/SEUtils -I\$PWD/SEFramework -I\$PWD/SEImplementation -I\$PWD/ModelFitting -I\$PWD/SEMain -I"\$H" "\$H/demo.cpp" \$S -o "\$T/demo" $6 || exit 2
timeout 120 "\$T/demo"
SH
