#!/bin/bash
# builds the simulator and the crate under test; offline
cd "$(dirname "$0")" || exit 2
. sim/env.sh
cd sim && cargo build --release --locked --offline
