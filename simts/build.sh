#!/bin/bash
# Bundles the browser packages of /repo's working tree and the simulator.
exec node "$(dirname "$0")/build.mjs"
