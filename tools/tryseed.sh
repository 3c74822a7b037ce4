#!/bin/bash
# tryseed.sh <seed id> [check|tests|all]: demo on both trees, this property's quick check (and the stable tests) on a patched copy
id=$1; what=${2:-check}; d=/verif/seeded/$id
c=$(mktemp -d /tmp/tryseed.XXXXXX)
trap 'rm -rf "$c"' EXIT
cp -a /repo/. $c/; cd $c || exit 2
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
(cd /repo && bash $d/demo.sh >/dev/null 2>&1); a=$?
bash $d/demo.sh >$c.demo 2>&1; b=$?
echo "$id demo clean=$a patched=$b $(tail -1 $c.demo | cut -c1-150)"; rm -f $c.demo
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ $what != tests ]; then
  s=$(date +%s); out=$(cd ${VERIF_COPY:-/verif} && VERIF_REPO=$c timeout 900 ./run.sh $p quick 2>&1); rc=$?
  echo "$id check $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
fi
if [ $what != check ]; then
  sed "s#cd /repo#cd $c#" /opt/vp/test.sh > $c/test.sh
  bash $c/test.sh $c/out.json >/dev/null 2>&1
  python3 - $c/out.json $id <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def s(x,k): 
    v=x.get(k,[]); return set(v)
k=[k for k in b if isinstance(b[k],list)][0]
base=set(b[k]); passed=set(r.get('passed',r.get('passing',[])))
print(sys.argv[2],'tests: baseline',len(base),'missing',sorted(base-passed)[:5])
P
fi
