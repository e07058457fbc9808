python3 "$3/tools/reggen.py" "$1" "$2" || exit 1
bash "$3/tools/compiles.sh" "$1/lf/regs" "$2/regable" || exit $?
GXV_REWRITE=fields exec bash "$3/harness/sched/prebuild.sh" "$1" "$1/lf" "$3" regs
