python3 "$3/tools/lfgen.py" "$1" "$2" ringbuffer ring || exit 1
bash "$3/tools/compiles.sh" "$1/lf/ringgo" || exit $?
GXV_REWRITE=fields exec bash "$3/harness/sched/prebuild.sh" "$1" "$1/lf" "$3" ringgo
