#!/bin/bash
# mkseed.sh ID PROPERTY "sources to compile" "libs" : writes demo.sh in seeded/ID
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.sh <<XEOF
#!/bin/bash
# exit 0: the demonstrated behaviour is right; run from /repo
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$(pwd)
t=\$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "\$t"' EXIT
mkdir -p "\$t/inc/sse" "\$t/run"
sed 's/#cmakedefine/#define/' lib/include/sse/configure.hpp.in > "\$t/inc/sse/configure.hpp"
g++ -std=gnu++17 -O1 -w -pthread -Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec \\
    -I"\$t/inc" -I"\$t/inc/sse" -Ilib/include -Ilib -Ilib/include/sse/schemes \\
    ${5:-} "\$here/demo.cpp" $3 -o "\$t/demo" $4 || exit 2
cd "\$t/run" && timeout 200 "\$t/demo" 2>/dev/null | tail -5
exit \${PIPESTATUS[0]}
XEOF
