#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo.
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$s/r"
  cd "$s/r" || exit 1
  export GIT_CONFIG_GLOBAL=/opt/vp/gitconfig CARGO_TARGET_DIR=$s/r/target CARGO_NET_OFFLINE=true
  cp -a "$d" "$s/demo"; rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
  bash "$s/demo/demo.sh" > "$s/o1" 2>&1; a=$?
  git apply "$d/patch.diff"; p=$?
  cargo test --workspace --no-run --offline > "$s/o2" 2>&1; b=$?
  t=$(cargo test --workspace --offline 2>&1 | grep -c '^test .* ok$')
  bash "$s/demo/demo.sh" > "$s/o3" 2>&1; c=$?
  v=BAD; [ $a = 0 ] && [ $p = 0 ] && [ $b = 0 ] && [ $t -ge 45 ] && [ $c != 0 ] && [ $c != 2 ] && v=GOOD
  echo "$id $v clean=$a apply=$p build=$b ok=$t demo=$c"
  if [ $v = BAD ]; then tail -5 "$s/o1" "$s/o2"; fi
  tail -3 "$s/o3" | cut -c1-200
  cd /; rm -rf "$s"
done
