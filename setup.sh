#!/bin/bash
# Builds the harness against /repo and checks that every module of the specification parses.
set -e
cd "$(dirname "$0")/harness"
. ./env.sh
cargo build --offline --locked --quiet
