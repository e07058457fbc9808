exec python3 "$3/tools/tplgen.py" "$1" "$2" "$3" c38
