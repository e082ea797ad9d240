#!/bin/bash
# Checks build everything themselves; this only fails early if the engine cannot be built here.
cd "$(dirname "$0")/.." && bash engine/build.sh
