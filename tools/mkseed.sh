#!/bin/bash
# mkseed.sh start        : fresh scratch copy /tmp/mk/repo
# mkseed.sh save ID PROP "needs" "breaks"  : diff -> seeded/ID
case $1 in
start) rm -rf /tmp/mk; mkdir -p /tmp/mk; cp -a /repo /tmp/mk/repo;;
save) d=/verif/seeded/$2; mkdir -p $d
  git -C /tmp/mk/repo diff > $d/patch.diff
  python3 - "$d" "$3" "$4" "$5" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump(dict(property=p,needs=n,what_it_breaks=w),open(d+'/meta.json','w'),indent=1)
P
  cat > $d/demo.sh <<'D'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
D
  git -C /tmp/mk/repo checkout -q -- . ;;
esac
