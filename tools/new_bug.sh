#!/bin/bash
# tools/new_bug.sh ID PROPERTY NEEDS WHAT_IT_BREAKS [link flags]: takes the uncommitted change in
# /tmp/bugs/work and /tmp/bugs/demo.cc and writes seeded/ID from them.
id=$1; d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/bugs/work diff > "$d/patch.diff"
cp /tmp/bugs/demo.cc "$d/demo.cc"
cp -r /verif/standins "$d/standins"
cat > "$d/demo.sh" <<S
#!/bin/bash
# exits 0 when the behaviour is right; run with the repository as cwd
here=\$(cd "\$(dirname "\$0")" && pwd)
out=\$(mktemp -d); trap 'rm -rf "\$out"' EXIT
g++ -std=c++17 -O1 -w -DCEREAL_THREAD_SAFE=1 -I"\$here/standins" -iquote "\$PWD/include/albatross" \\
  -I"\$PWD/include" -isystem /usr/include/eigen3 -isystem /usr/include/libfccp \\
  -isystem /usr/include/suitesparse "\$here/demo.cc" -o "\$out/demo" $5 -lz -lzstd -lpthread || exit 3
"\$out/demo"
S
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P
git -C /tmp/bugs/work checkout -q -- .
rm -f "$d/standins/"*.orig
/verif/tools/try_bug.sh "$id"
