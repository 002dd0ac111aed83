#!/bin/sh
# builds the extractor and the executable contracts (offline, from the cargo cache)
set -e
cd "$(dirname "$0")/.."
(cd extract && cargo build --offline --release -q)
(cd replay && cargo build --offline -q)
