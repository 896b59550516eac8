#!/bin/bash
# builds the symbolic execution engine when needed and runs it
set -u
verif="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export SYMGO_VERIF="$verif"
stamp="$(cd "$verif/engine" && cat go.mod *.go vendor/modules.txt | sha256sum | cut -d' ' -f1)"
bin="$verif/bin/symgo"
if [ ! -x "$bin" ] || [ "$(cat "$bin.stamp" 2>/dev/null)" != "$stamp" ]; then
  tmp="$(mktemp "$verif/bin/symgo.XXXXXX")"
  (cd "$verif/engine" && GOFLAGS=-mod=vendor GOTOOLCHAIN=local go build -o "$tmp" .) || { rm -f "$tmp"; echo "error: the engine does not build"; exit 2; }
  chmod 755 "$tmp" && mv "$tmp" "$bin" && echo "$stamp" > "$bin.stamp"
fi
[ "$#" -eq 0 ] && exit 0
exec "$bin" "$@"
