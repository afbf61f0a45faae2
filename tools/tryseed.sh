#!/bin/bash
# tryseed.sh ID...: confirm planted changes in a scratch copy (/tmp/seed): tests, demonstration, checks.
# Prints one line per change: ID tests=ok|FAIL demo=clean/patched check=exit code.
S=/tmp/seed
V="$(cd "$(dirname "$0")/.." && pwd)"
if [ ! -d $S ]; then
  mkdir -p $S/vp $S/bin
  cp -a /repo $S/repo
  cp /opt/vp/*.py /opt/vp/*.sh /opt/vp/BASELINE.json $S/vp/
  sed -i "s#/opt/vp#$S/vp#g; s#\"/repo\"#\"$S/repo\"#g" $S/vp/*.py $S/vp/*.sh
  mkdir -p $S/verif; cp -a $V/target $S/verif/target
fi
git -C $S/repo fetch -q /repo HEAD 2>/dev/null && git -C $S/repo checkout -qf FETCH_HEAD
sync_verif() {
  for f in mc tools check.sh known_findings.json; do rm -rf "$S/new_$f"; cp -a $V/$f "$S/new_$f"; done
  grep -rlE '/repo\b' "$S"/new_* | xargs sed -i "s#/repo\b#$S/repo#g"
  rsync -rc --delete "$S/new_mc/" $S/verif/mc/; rsync -rc "$S/new_tools/" $S/verif/tools/
  cp "$S/new_check.sh" $S/verif/check.sh; cp "$S/new_known_findings.json" $S/verif/known_findings.json
  mkdir -p $S/verif/evidence $S/verif/replays
}
sync_verif
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf "$S/demo"; cp -a $d "$S/demo"; sed -i "s#/repo/#$S/repo/#g" "$S/demo/Cargo.toml"
  sed -i "s#T=\"\$(mktemp -d)\"#T=$S/demobuild; mkdir -p \$T#; s#^trap.*##" "$S/demo/demo.sh"
  git -C $S/repo checkout -q -- .
  a=-; b=-; t=-; c=-
  if [ -z "$ONLY_CHECK" ]; then
    (cd $S/repo; timeout 300 bash "$S/demo/demo.sh" > "$S/$id.clean" 2>&1); a=$?
  fi
  git -C $S/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$ONLY_CHECK" ]; then
    (cd $S/repo; timeout 300 bash "$S/demo/demo.sh" > "$S/$id.patched" 2>&1); b=$?
    bash $S/vp/test.sh "$S/$id.json" > "$S/$id.test" 2>&1
    t=$(python3 - "$S/$id.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    p=x.get('passed',x.get('stable',x))
    return set(p if isinstance(p,list) else [k for k,v in p.items() if v in (True,'pass','passed','ok')])
m=passed(base)-passed(r)
print('ok' if not m else 'FAIL:'+','.join(sorted(m)[:3]))
P
)
  fi
  if [ -z "$NO_CHECK" ]; then
    s=$(date +%s)
    bash $S/verif/check.sh ${PROP:-$prop} ${TIER:-quick} > "$S/$id.check" 2>&1; c=$?
    e=$(( $(date +%s) - s ))
  fi
  git -C $S/repo checkout -q -- .
  echo "$id [$prop] tests=$t demo=$a/$b check=$c ${e}s $(grep -h '^VIOLATION' "$S/$id.check" | head -1)"
done
