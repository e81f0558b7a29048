#!/bin/bash
# Builds both profiles of the harness once; the checks rebuild when /repo changes.
cd "$(dirname "$0")" && ./check.sh --build-only quick
