mk () 
{ 
    id=$1;
    mkdir -p $id;
    python3 - || return 1;
    git -C /repo diff > $id/patch.diff;
    git -C /repo checkout -q -- .;
    python3 - "$id" "$2" "$3" "$4" <<'E'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
E

    cat > $id/demo.sh <<'E'
#!/bin/bash
# builds the demonstration against the current tree; hangs and crashes count as failure
D="$(cd "$(dirname "$0")" && pwd)"
B="$(mktemp -d)"
trap 'rm -rf "$B"' EXIT
g++ -std=c++17 -O1 -g -I. threadpp/*.cpp threadpp/detail/*.cpp "$D/demo.cpp" -o "$B/demo" -pthread || exit 3
timeout 60 "$B/demo"
E

    wc -l $id/patch.diff
}
