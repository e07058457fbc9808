python3 "$3/tools/lfgen.py" "$1" "$2" lfdeque lfd || exit 1
for p in lfd lfdgo; do bash "$3/tools/compiles.sh" "$1/lf/$p" || exit $?; done
GXV_REWRITE=fields exec bash "$3/harness/sched/prebuild.sh" "$1" "$1/lf" "$3" lfd lfdgo
