#!/bin/bash
# cc.sh CACHE SRC OBJ COMPILER FLAGS...   Compiles SRC into OBJ; translation units that are identical after
# preprocessing are compiled once.  CACHE holds objects under the hash of that text, the flags and the compiler.
cache="$1"; src="$2"; obj="$3"; shift 3
"$@" -E -P "$src" -o "$obj.ii" || exit 1
flags="$(printf '%s\n' "$@" | grep -v -e '^-I' -e '^-D')"
key="$( { cat "$obj.ii"; echo "$flags"; "$1" --version; basename "$src"; } | sha256sum | cut -c1-40)"
mkdir -p "$cache" 2>/dev/null
if { exec 9>"$cache/$key.lock"; } 2>/dev/null && flock 9; then
  if [ ! -s "$cache/$key.o" ]; then
    "$@" -c "$src" -o "$obj.tmp.o" || exit 1
    mv "$obj.tmp.o" "$obj"; rm -f "$obj.ii"
    cp "$obj" "$cache/$key.$$" 2>/dev/null && mv "$cache/$key.$$" "$cache/$key.o" 2>/dev/null
    rm -f "$cache/$key.$$" "$cache/$key.lock"; exit 0
  fi
  rm -f "$obj.ii" "$cache/$key.lock"
  cp "$cache/$key.o" "$obj" && touch -c "$cache/$key.o"; exit $?
fi
"$@" -c "$src" -o "$obj"; s=$?; rm -f "$obj.ii"; exit $s
