set -e
cd /verif
g++ -fmax-errors=3 -std=c++20 -O1 -g1 -fsanitize=address -no-pie -fno-pie -w -fno-strict-aliasing -fno-lifetime-dse -fno-delete-null-pointer-checks ${X:-} -Imc -I${R:-/repo} h/$1.cpp -o build/h_$1$P -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc 2>&1 | grep -E "error|Error" | cut -c1-300 | head -20; exit ${PIPESTATUS[0]}
