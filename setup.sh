#!/bin/bash
# Builds the extractor, generates protobuf headers from /repo's current tree and warms the caches the checks use.
cd "$(dirname "$0")" || exit 2
exec python3-vt run.py --setup
