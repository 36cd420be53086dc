#!/bin/bash
# stands before rustc: the library under test and the harness get the standard library of wzstd.rs
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  wz_reader) exec "$rustc" "$@" --extern "std=$WZSTD" ;;
  wzmon) exec "$rustc" "$@" --extern "std=$WZSTD" --cfg wz_sched ;;
  *) exec "$rustc" "$@" ;;
esac
