# cxx DIM EOS GEOM source... : builds $W/demo from /repo's current sources and the files beside this script
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cxx() {
    local dim=$1 eos=$2 geom=$3
    shift 3
    for f in ndim eos geom; do
        sed "s/@Heraclespp_NDIM@/$dim/; s/@Heraclespp_EOS@/$eos/; s/@Heraclespp_GEOM@/$geom/" "$repo/src/utils/$f.hpp.in" >"$W/$f.hpp"
    done
    local inc="-I$W -I$here -I$here/shim -I$repo/src -I$repo/vendor/inih/include"
    for d in analysis dual_view gravity hydro io mesh moving_grid thermodynamics units user_step utils; do inc="$inc -I$repo/src/$d"; done
    [ -z "$SETUP" ] || inc="$inc -I$repo/src/setups/$SETUP"
    gcc -c -O1 -I"$repo/vendor/inih/include" $INIDEFS "$repo/vendor/inih/src/ini.c" -o "$W/ini.o" || exit 99
    # shellcheck disable=SC2086
    OMPI_CXX=g++ mpicxx -std=c++20 -O1 -g -w -DOMPI_SKIP_MPICXX -DHERACLESPP_GRAVITY_${GRAV:-Uniform} $DEFS $inc -include cassert "$@" "$repo/vendor/inih/src/INIReader.cpp" "$W/ini.o" $LIBS -o "$W/demo" || exit 99
}
run() {
    OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 timeout 120 mpirun --oversubscribe -q -np "${NP:-1}" "$W/demo" "$@"
}
