#!/bin/bash
# mkseed.sh ID PROP "needs" "what it breaks"  (edit made in $W, demo.ts on stdin)
W=${W:-/tmp/wt}; s=/verif/seeded/$1; mkdir -p $s
git -C $W diff > $s/patch.diff; cat > $s/demo.ts; cp /verif/notes/run.mjs $s/run.mjs
printf '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexec node "$d/run.mjs" "$d/demo.ts"\n' > $s/demo.sh; chmod +x $s/demo.sh
python3 - "$@" > $s/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C $W checkout -q -- .
