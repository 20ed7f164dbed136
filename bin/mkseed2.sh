# mk2 ID PROPERTY NEEDS BREAKS: run in /verif/seeded after editing /repo; the rest of the demo is read from stdin
mk2() {
    mkdir -p "$1"
    git -C /repo diff > "$1/patch.diff"
    git -C /repo checkout -q -- .
    cp ../bin/demo_lib.sh "$1/lib.sh"; cp ../bin/demo_cluster.py "$1/cluster.py"; cp ../bin/demo_wal.py "$1/wal.py"
    { echo '#!/bin/bash'; echo '. "$(dirname "$0")/lib.sh"'; cat; } > "$1/demo.sh"
    python3 -c "import json,sys;json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'))" "$1" "$2" "$3" "$4"
    wc -l "$1/patch.diff"
}
