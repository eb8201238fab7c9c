#!/bin/bash
# builds the variant that most checks use; each check builds whatever else it needs
set -e
cd "$(dirname "$0")/sched"
cargo build --offline --release --features adaptive --bins --target-dir ../target/def
