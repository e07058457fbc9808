# compiles.sh GENERATED [PACKAGE]: exit 7 when the generated package does not compile although
# the package of /repo it goes with does.
[ -z "$2" ] || (cd "$2" && go build -o /dev/null .) || exit 1
out=$(cd "$1" && go build -o /dev/null . 2>&1) && exit 0
echo "the generated code does not compile: $out"
exit 7
