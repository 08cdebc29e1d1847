#!/bin/bash
# Builds the analyzer (setup_cmd). Offline: golang.org/x/tools comes from the module cache.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd analyzer
go build -o ../bin/analyzer.new . && mv ../bin/analyzer.new ../bin/analyzer
