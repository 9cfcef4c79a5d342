# Helpers for demo.sh: generate, compile and import bindings in a scratch
# directory; run with the repository as working directory after a build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
TOOL="$repo/_build/genpybind-tool"
INC="-I$repo/public -I/usr/include/python3.12"
# gen HEADER NAME [tool options...]: runs the tool, output in $tmp/NAME.cpp
gen() {
  h=$1; n=$2; shift 2
  "$TOOL" "$@" -o "$tmp/$n.cpp" "$h" -- -I"$(dirname "$h")" $INC -std=c++17
}
# module HEADER NAME: generates, compiles $tmp/NAME.so
module() {
  gen "$1" "$2" || return 1
  clang++-18 -std=c++17 -O0 -fPIC -shared -fvisibility=hidden -I"$(dirname "$1")" $INC "$tmp/$2.cpp" -o "$tmp/$2.so"
}
py() { PYTHONPATH="$tmp" /usr/bin/python3 -S "$@"; }
