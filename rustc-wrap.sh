#!/bin/bash
# Compiles twiggy's own crates with a callback on every control-flow edge.
rustc=$1
shift
case " $* " in
    *" --crate-name twiggy_"*)
        exec "$rustc" "$@" -Ccodegen-units=1 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
        ;;
esac
exec "$rustc" "$@"
