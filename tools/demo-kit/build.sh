# Compiles demo.cpp of this folder with the library sources named in $SRCS; the program is $T/demo.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC="-I/repo/src -I/repo/src/tinymesh -I$here/shim -I$here -isystem /usr/include/eigen3"
build() {
    local n=0 s pids=""
    for s in $SRCS; do
        g++ -std=gnu++17 -O1 -fopenmp -pthread -w $FLAGS $INC -c "/repo/src/tinymesh/$s" -o "$T/$n.o" & pids="$pids $!"
        n=$((n + 1))
    done
    g++ -std=gnu++17 -O1 -fopenmp -pthread -w $FLAGS $INC -c "$here/demo.cpp" -o "$T/demo.o" & pids="$pids $!"
    for s in $pids; do wait "$s" || exit 3; done
    g++ -fopenmp -pthread "$T"/*.o -o "$T/demo" || exit 3
}
CORE="core/mesh.cpp core/external.cpp core/completion.cpp core/face.cpp core/halfedge.cpp core/vertex.cpp core/bvh.cpp core/triangle.cpp core/eigen.cpp"
