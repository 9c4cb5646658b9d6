#!/bin/bash
# mkseed.sh ID PROP NEEDS WHAT DEMO.rs : records the diff of the scratch copy /tmp/sw as a planted bug after confirming it
id=$1; prop=$2; needs=$3; what=$4; demo=$5
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/sw diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no diff"; exit 1; }
cp "$demo" "$d/demo.rs"; cp /verif/tools/seedtmpl/demo.sh "$d/demo.sh"; cp /verif/tools/seedtmpl/demo.lock "$d/demo.lock"
python3 -c "import json,sys; json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open(sys.argv[4],'w'),indent=1)" "$prop" "$needs" "$what" "$d/meta.json"
(cd /repo && bash "$d/demo.sh") >/tmp/seed.out 2>&1; a=$?
(cd /tmp/sw && bash "$d/demo.sh") >/tmp/seed.out2 2>&1; b=$?
(cd /tmp/sw && cargo test --workspace --all-features --no-fail-fast --offline -q -- --test-threads 8 2>&1 | grep -E "^test result: .*[1-9][0-9]* passed|^test .*FAILED|could not compile" | cut -c1-60) > /tmp/seed.tests
echo "$id: unchanged exit $a (want 0), changed exit $b (want nonzero)"; [ $a = 0 ] || tail -5 /tmp/seed.out; cat /tmp/seed.tests
git -C /tmp/sw checkout -q -- .
