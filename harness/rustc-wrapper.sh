#!/bin/bash
# RUSTC_WRAPPER: instruments the library under test, and only it, for coverage feedback.
rustc="$1"; shift
case " $* " in
  *" --crate-name email_parser "*)
    extra=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 --cap-lints=allow)
    [ "${VERIF_LOADS:-0}" = 1 ] && extra+=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
    [ "${VERIF_HOOK:-1}" = 1 ] && extra+=(--cfg email_parser_verif)
    exec "$rustc" "$@" "${extra[@]}";;
esac
exec "$rustc" "$@"
