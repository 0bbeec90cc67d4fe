#!/bin/bash
# try_seed.sh ID...: confirms planted bugs in a scratch copy of /repo (/tmp/seed/repo): the patch applies, builds,
# the stable tests pass with it, and demo.sh tells the two trees apart. Does not touch /repo.
R=/tmp/seed/repo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p /tmp/seed
[ -d $R ] || cp -a /repo $R
cd $R || exit 2
git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
build() { cargo build --workspace --offline >/tmp/seed/build.log 2>&1 && cargo test --workspace --no-run --offline >>/tmp/seed/build.log 2>&1; }
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- .; build || { echo "$id: base does not build"; exit 2; }
  rm -rf /tmp/seed/demo; cp -r $d /tmp/seed/demo; rm -f /tmp/seed/demo/patch.diff /tmp/seed/demo/meta.json
  s=$(date +%s); timeout 300 bash /tmp/seed/demo/demo.sh >/tmp/seed/demo.base 2>&1; b=$?; t1=$(( $(date +%s)-s ))
  git apply --check $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  git apply $d/patch.diff
  if ! build; then echo "$id: does not build"; tail -5 /tmp/seed/build.log; git checkout -q -- .; continue; fi
  s=$(date +%s); timeout 300 bash /tmp/seed/demo/demo.sh >/tmp/seed/demo.bug 2>&1; p=$?; t2=$(( $(date +%s)-s ))
  if [ -z "$NOTEST" ]; then cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed/test.log 2>&1; fi
  rm -rf crates/volaris-tools/hello_[0-9]*.txt crates/volaris-tools/bar_[0-9]*
  python3 - "$id" $b $p $t1 $t2 <<'P'
import re,sys,json
sid,b,p,t1,t2=sys.argv[1:]
log=open('/tmp/seed/test.log').read()
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(re.findall(r'^test (\S+)(?: - .*)? \.\.\. ok',log,re.M))
failed=[s for s in st if s.split('::',1)[1] not in ok and not any(s.endswith(o) for o in ok)]
good = b=='0' and p!='0' and not failed
print(('OK  ' if good else 'BAD '),sid,'base',b,f'({t1}s)','bug',p,f'({t2}s)','stable failing:',failed[:3])
P
  git checkout -q -- .
done
