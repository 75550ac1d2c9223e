#!/bin/bash
# Runs the scenario beside this script against puck_liveview/client/index.js in the current directory, in a small stand-in for a
# browser's document (dom.js). Exit 0 when the page behaves as it should.
D=$(cd "$(dirname "$0")" && pwd)
node "$D/scenario.js" "$PWD" 2>&1 | tee /dev/stderr | grep -q '^DEMO OK$'
