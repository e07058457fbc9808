# prebuild.sh WORK REPO VERIF PKG...: rewrites /repo/PKG into gxs/PKG, at the finest level that compiles
set -e
work=$1 repo=$2 verif=$3; shift 3
go build -o "$work/rewrite" gxv/sched/rewrite
for p in "$@"; do
  ok=
  for level in 2 1 0; do
    "$work/rewrite" "$repo/$p" "$work/src/gxs/$p" $level $GXV_REWRITE || continue
    if (cd "$work/src/gxs/$p" && go build . ) >"$work/rw.log" 2>&1; then ok=$level; break; fi
  done
  [ -n "$ok" ] || { cat "$work/rw.log"; exit 1; }
  mkdir -p "$work/src/gxs/level"
done
