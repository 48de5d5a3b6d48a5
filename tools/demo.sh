#!/bin/bash
# builds demo.cpp against the built libraries of the current directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
t=$(mktemp -d)
g++ -std=c++17 -O0 -DNDEBUG -w -I"$R/parser_library/src" -I"$R/parser_library/include" -I"$R/utils/include" -I"$R/language_server/src" \
  -I"$R/_build/generated_parser" -I"$R/_build/generated_parser/export" -I/opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/src -I/opt/vp/deps/asio/asio/include -include /opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h -I/usr/include/antlr4-runtime -I/opt/vp/deps/json/include \
  "$d/demo.cpp" -o "$t/demo" "$R/_build/bin/liblanguage_server_no_uri.a" "$R/_build/bin/libparser_library.a" "$R/_build/bin/libhlasm_utils.a" -lantlr4-runtime -lpthread || { echo "cannot build the demonstration"; exit 2; }
cd "$t" && TMPDIR="$t" timeout 60 ./demo
rc=$?
cd / && rm -f "$t"/* && rmdir "$t"
exit $rc
