#!/bin/bash
# builds the fact extractor and the dependencies of /repo under it, and extracts the facts once
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
mkdir -p "$V/.build/facts" "$V/evidence"
exec bash "$V/bin/facts.sh" "${RSH_REPO:-/repo}" "$V/.build/facts/setup.json"
