# install.sh DIR: copies what the demonstrations share into DIR, which has to stand on its own
k=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1/shim"
cp "$k/shim/tinyply.h" "$k/shim/tiny_obj_loader.h" "$1/shim/"
cp "$k/build.sh" "$k/shapes.h" "$1/"
