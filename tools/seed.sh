#!/bin/bash
# seed.sh confirm ID...   patch applies, stable tests pass with it, demo passes without and fails with it (in a scratch copy)
# seed.sh catch ID...     runs the property's quick check against /repo with the patch applied, then undoes it
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd)
cmd=$1; shift
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  case $cmd in
  confirm)
    w=$(mktemp -d /tmp/seedXXXXXX)
    cp -a /repo "$w/r"; git -C "$w/r" checkout -q -- .
    cp -a "$d" "$w/d"; rm -f "$w/d/patch.diff" "$w/d/meta.json"
    cd "$w/r"
    bash "$w/d/demo.sh" >"$w/good.log" 2>&1; g=$?
    git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$w"; continue; }
    timeout 900 cargo test --workspace --no-fail-fast --offline "${CFG[@]}" -- --test-threads 4 >"$w/test.log" 2>&1
    python3 - "$w/test.log" "$w/t.json" <<'P'
import json,re,sys
ok=set(re.findall(r'^test (\S+) \.\.\. ok',open(sys.argv[1]).read(),re.M))
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
names=[n for n in set(re.findall(r'"([A-Za-z0-9_]+(?:::[A-Za-z0-9_]+)+)"',s))]
print('tests: %d ok; stable missing: %s'%(len(ok),[n for n in names if n not in ok and not any(n.endswith(o) for o in ok)]))
P
    bash "$w/d/demo.sh" >"$w/bad.log" 2>&1; b=$?
    echo "$id ($prop): demo unchanged=$g (want 0) patched=$b (want !=0)"; tail -2 "$w/bad.log"
    [ $g = 0 ] || tail -15 "$w/good.log"
    rm -rf "$w" ;;
  catch)
    git -C /repo apply "$d/patch.diff" || continue
    t=$SECONDS
    out=$(cd "$V" && python3 check.py "$prop" quick 2>&1); rc=$?
    git -C /repo checkout -- .
    if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" <<<"$out"; then echo "$id: CAUGHT by $prop ($((SECONDS-t))s)"; else echo "$id: MISSED rc=$rc"; tail -5 <<<"$out"; fi ;;
  esac
done
