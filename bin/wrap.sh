#!/bin/bash
# rustc wrapper: the library crate is also declared as cdylib, which cannot be linked from
# bitcode-only objects; only its rlib is needed here.
rustc="$1"; shift
case " $* " in *" --crate-name rgbstd "*) ;; *) exec "$rustc" "$@";; esac
args=(); prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-type" ] && [ "$a" = "cdylib" ]; then unset 'args[-1]'; prev=""; continue; fi
  args+=("$a"); prev="$a"
done
exec "$rustc" "${args[@]}"
