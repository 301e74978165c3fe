#!/bin/bash
# Builds the harness once, offline (every check rebuilds it from /repo's current tree anyway).
exec bash "$(dirname "$0")/build.sh"
