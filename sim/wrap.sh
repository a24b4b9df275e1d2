#!/bin/bash
# rustc wrapper: the library under test is compiled with coverage callbacks at every edge, which the
# simulator takes as possible scheduling points.
case " $* " in
*" --crate-name templito "* | *" --crate-name inst "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$@"
