#!/bin/sh
# Compiles demo.rs with /repo's transition_id.rs; exit 0 when the ids behave.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
{ printf '#[path = "%s/src/TransitionSystems/transition_id.rs"]\nmod transition_id;\n' "$PWD"; cat "$here/demo.rs"; } > "$d/main.rs"
rustc --edition 2018 -A warnings -o "$d/demo" "$d/main.rs" || exit 3
"$d/demo"
