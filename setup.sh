#!/bin/bash
# Builds the driver once; every check rebuilds it against /repo's working tree.
cd "$(dirname "$0")" && exec ./check --build-only
