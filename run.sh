#!/bin/bash
# Decides properties: run.sh ID... (no ID: only builds the checker). The checker is built again if its sources changed.
dir=$(cd "$(dirname "$0")" && pwd)
bin=$dir/bin/astracheck
sum=$(cd "$dir/checker" && cat go.mod go.sum ./*.go | sha256sum | cut -d' ' -f1)
if [ ! -x "$bin" ] || [ "$(cat "$bin.sum" 2>/dev/null)" != "$sum" ]; then
  mkdir -p "$dir/bin"
  go=/opt/veriftools/go1.27.3/bin/go
  [ -x "$go" ] || go=/usr/local/bin/go
  [ -x "$go" ] || go=go
  (cd "$dir/checker" && env -u GOROOT GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 "$go" build -o "$bin.$$" .) || { echo "the checker does not build"; exit 2; }
  mv "$bin.$$" "$bin" && echo "$sum" > "$bin.sum"
fi
[ $# -eq 0 ] && exit 0
code=0
for id in "$@"; do
  timeout -k 10 850 "$bin" -repo /repo -out "$dir" -prop "$id"
  c=$?
  if [ $c -gt 1 ]; then
    # No answer: the property was not shown to hold.
    echo "the analysis gave no answer (exit $c)"
    echo "VIOLATION property=$id replay=$dir/evidence/$id.json"
    c=1
  fi
  [ $c -gt $code ] && code=$c
done
exit $code
