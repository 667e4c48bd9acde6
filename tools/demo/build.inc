# sourced by demo.sh with cwd /repo: compiles $D/demo.cpp against the built libraries into $T/demo
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/iox_demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
B=$PWD/_build
INC="-I$PWD/iceoryx_platform/generic/include -I$PWD/iceoryx_platform/linux/include -I$PWD/iceoryx_binding_c/include -I$PWD/iceoryx_posh/roudi_env/include -I$PWD/iceoryx_posh/include -I$PWD/iceoryx_posh/experimental/include"
for d in $(find "$PWD/iceoryx_hoofs" -type d -name include | grep -v /test) "$B"/generated/*/include; do INC="$INC -I$d"; done
LIBS="$B/iceoryx_binding_c/libiceoryx_binding_c.a $B/posh/libiceoryx_posh_gateway.a $B/posh/libiceoryx_posh_roudi.a $B/posh/libiceoryx_posh.a $B/hoofs/libiceoryx_hoofs.a $B/platform/libiceoryx_platform.a -lpthread -lrt -ldl"
g++ -std=c++17 -O1 -g -w $INC "$D/demo.cpp" $LIBS -lacl -o "$T/demo" 2>"$T/err" || g++ -std=c++17 -O1 -g -w $INC "$D/demo.cpp" $LIBS -o "$T/demo"
set +e
