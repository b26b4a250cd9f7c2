#!/bin/bash
# see .cargo/config.toml: the library is compiled with calls at its memory accesses (the compiler's
# thread-sanitizer instrumentation); the simulator (sim/src/mem.rs) is what they call. Nothing else changes.
rustc=$1; shift
case " $* " in
*" --crate-name faerie "*)
  export RUSTC_BOOTSTRAP=1
  exec "$rustc" "$@" -Zsanitizer=thread -Zunstable-options -Cunsafe-allow-abi-mismatch=sanitizer ;;
*" --crate-name faerie_sim "*)
  export RUSTC_BOOTSTRAP=1
  exec "$rustc" "$@" -Zunstable-options -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
