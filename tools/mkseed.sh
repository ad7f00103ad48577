#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" : takes the diff of /tmp/pl (a scratch copy of /repo being edited) and /tmp/pl-demo.cpp
id=$1; S=/verif/seeded/$id; mkdir -p $S
(cd /tmp/pl && git diff) > $S/patch.diff
cp /tmp/pl-demo.cpp $S/demo.cpp
cat > $S/demo.sh <<'D'
#!/bin/bash
# exit 0: behaves as stated; run in /repo
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for s in SRCS; do g++ -std=c++20 -O0 -g -DBOOST_ASIO_NO_DEPRECATED -Iinclude -w -c src/$s.cpp -o $t/$(basename $s)_l.o || exit 3 & p="$p $!"; done
g++ -std=c++20 -O0 -g -DBOOST_ASIO_NO_DEPRECATED -Iinclude -w -c "$d/demo.cpp" -o $t/demo.o || exit 3
for q in $p; do wait $q || exit 3; done
g++ $t/*.o -o $t/demo -pthread -lssl -lcrypto || exit 3
cd $t && timeout 60 ./demo
D
sed -i "s|SRCS|${SRCS:-channel error main this_thread thread detail/exception detail/util}|" $S/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
(cd /tmp/pl && git checkout -q .)
