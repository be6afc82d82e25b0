#!/bin/bash
# tools/catch.sh ID...  applies each planted bug to a copy of /repo, runs its property's quick check on it, notes the result in tools/caught.tsv.
cd /verif || exit 2
C=$(mktemp -d /tmp/catch.XXXXXX); chmod 755 "$C"
cp -a /repo "$C/repo"
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$C/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(CRM_REPO="$C/repo" VERIF_MINIMISE_S=${VERIF_MINIMISE_S:-10} VERIF_SEED=1 VERIF_TIER=quick bash check.sh "$p" quick 2>&1); rc=$?
  git -C "$C/repo" checkout -q -- .
  r=$(echo "$out" | grep -a VIOLATION | head -1 | sed 's/.*replay=//')
  key=$([ -n "$r" ] && python3 -c "import json;d=json.load(open('$r'));print(d.get('key',''))" 2>/dev/null)
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $key $r"
  touch tools/caught.tsv; grep -v "^$id	" tools/caught.tsv > "$C/tsv"; printf '%s\t%s\t%s\n' "$id" "$rc" "$key" >> "$C/tsv"; sort "$C/tsv" > tools/caught.tsv
done
rm -r "$C"
