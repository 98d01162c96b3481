#!/bin/sh
# Compiles the library under test with a compiler-inserted callback at every
# basic block (the simulator's preemption and progress seam), in the build "fine"
# also before every memory access, in the build "deep" the standard library too,
# and the simulator itself with the allocation-error hook feature.
# Nothing in /repo changes.
rustc="$1"; shift
blocks="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
case " $* " in
  *" --crate-name wavefront_obj "*)
    if [ "${VSIM_VARIANT:-}" = fine ]; then
      RUSTC_BOOTSTRAP=1; export RUSTC_BOOTSTRAP
      exec "$rustc" "$@" $blocks -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Ccodegen-units=1 --cap-lints=allow
    fi
    exec "$rustc" "$@" $blocks -Ccodegen-units=1 --cap-lints=allow ;;
  *" --crate-name vsim "*)
    RUSTC_BOOTSTRAP=1; export RUSTC_BOOTSTRAP
    if [ "${VSIM_VARIANT:-}" = fine ]; then exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer; fi
    exec "$rustc" "$@" ;;
  *" --crate-name core "*|*" --crate-name alloc "*)
    if [ "${VSIM_VARIANT:-}" = deep ]; then exec "$rustc" "$@" $blocks; fi ;;
esac
exec "$rustc" "$@"
