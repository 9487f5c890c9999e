#!/bin/bash
# usage: mkseed.sh ID PROPERTY NEEDS BREAKS < demo.py   (uses the uncommitted diff in the scratch tree $TREE)
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p "$D"
git -C "$TREE" diff > "$D/patch.diff"; git -C "$TREE" checkout -q -- .
cat > "$D/demo.py"
cp "$V/meta/demolib.py" "$D/demolib.py"
printf '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD:$HERE" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"\n' > "$D/demo.sh"
python3 - "$@" > "$D/meta.json" <<'PY'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
PY
bash "$V/meta/seed.sh" "$1"
