# sourced by demo.sh with cwd = the repository: builds the demo's test in a scratch module that uses it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CI CONTINUOUS_INTEGRATION BUILD_NUMBER BUILD_ID RUN_ID UPDATE_SNAPS NO_COLOR
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
M=$T/m; mkdir "$M"
sed 's|^module .*|module demo|' "$R/go.mod" > "$M/go.mod"
printf 'require github.com/gkampitakis/go-snaps v0.0.0\nreplace github.com/gkampitakis/go-snaps => %s\n' "$R" >> "$M/go.mod"
cp "$R/go.sum" "$M/go.sum"
for f in "$D"/*.go.txt; do cp "$f" "$M/$(basename "$f" .txt)"; done
(cd "$M" && go test -c -vet=off $BUILDFLAGS -o "$M/t.test" . ) || { echo "demo does not build"; exit 98; }
run() { (cd "$M" && timeout 250 env "$@"); }
fail() { echo "DEMO: $*"; exit 1; }
S=$M/__snapshots__/demo_test.snap
