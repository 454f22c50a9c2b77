#!/bin/bash
# Nothing is kept between checks: each check compiles what it needs. This only makes sure that the tools work.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence/replays
d=$(mktemp -d build/setup.XXXXXX); trap 'rm -rf "$PWD/$d"' EXIT
echo 'int main() { return 0; }' > "$d/a.cpp"
for f in address,undefined thread; do g++ -std=c++17 -fsanitize=$f "$d/a.cpp" -o "$d/a" && "$d/a"; done
clang++ -std=c++17 -fsanitize=memory "$d/a.cpp" -o "$d/a" && "$d/a"
python3 -c 'import sys; sys.path.insert(0, "bin"); import plan; print(len(plan.PLAN), "properties planned")'
