GXV_REWRITE=fields exec bash "$3/harness/sched/prebuild.sh" "$1" "$2" "$3" regable
