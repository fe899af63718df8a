#!/bin/bash
cd "$(dirname "$0")"
. ./env.sh
build te-harness && { [ ! -d sim/ql-harness/src ] || [ ! -f sim/ql-harness/Cargo.toml ] || build ql-harness; }
