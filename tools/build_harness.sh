#!/bin/bash
# builds the harness against /repo's working tree
cd /verif/harness && unset RUSTFLAGS && RUSTC_WRAPPER=/verif/tools/rustc_wrap.sh cargo build --offline --release --quiet "$@"
