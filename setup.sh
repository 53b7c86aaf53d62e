#!/bin/bash
# Builds the analyser from the committed files.
cd "$(dirname "$(readlink -f "$0")")/driver" && cargo +nightly build --release --offline
