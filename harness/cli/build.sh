#!/bin/bash
# Builds $1/bin, the checker, and $1/promq, the command itself.
set -e
cd "$(dirname "$0")/.."
go build -o "$1/bin" ./cli
go build -o "$1/promq" sigs.k8s.io/instrumentation-tools
