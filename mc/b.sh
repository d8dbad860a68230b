#!/bin/bash
# developer build: our own warnings and errors only
cd /verif/mc && rm -rf target/release/.fingerprint/rust_graph-* && cargo build --release --offline --message-format short 2>&1 | grep -E "^src/|^shims/|^error" | grep -v "never used\|never read" | head -${1:-40}
