python3 "$3/tools/mapgen.py" "$1" "$2" || exit 1
for d in "$1"/src/gxs/maps/*; do bash "$3/tools/compiles.sh" "$d" || exit $?; done
