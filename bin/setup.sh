#!/bin/bash
# Nothing is prebuilt: checks compile /repo's current tree themselves. Verify the tools they use.
set -e
for t in gcc g++ python3 setarch; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence
echo 'int main(void){return 0;}' > build/t.c
gcc -fsanitize=address,undefined build/t.c -o build/t && ./build/t
gcc -fsanitize=thread build/t.c -o build/t && setarch -R ./build/t
/usr/bin/rm -f build/t build/t.c
