#!/bin/bash
# builds the extractor and the bounded harness from the committed files, offline
set -e
cd "$(dirname "$0")"
(cd extractor && cargo build --offline -q) 
(cd harness && cargo build --offline -q) || echo "harness does not build against the current /repo"
