#!/bin/bash
# build.sh OUT: bundles the checks with the client's sources
D="$(cd "$(dirname "$0")" && pwd)"; M=/opt/veriftools/node/node_modules
SDK="${NEXO_SDK:-/repo/sdk/ts/src}"
NODE_PATH=$M $M/.bin/esbuild "$D/src/main.ts" --bundle --platform=node --target=node22 --log-level=error --alias:nexo-sdk="$SDK/index.ts" --alias:net="$D/src/fakenet.ts" --alias:node:net="$D/src/fakenet.ts" --alias:timers/promises="$D/src/timersp.ts" --alias:node:timers/promises="$D/src/timersp.ts" --outfile="$1"
