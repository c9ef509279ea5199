#!/bin/bash
# Builds the canister once from /repo so that later checks only rebuild what changed.
cd "$(dirname "$0")/.." && exec node -e "import('./engine/build.mjs').then(({build})=>{console.log(build(['vprel','vpchk']));console.log(build(['vprel'],['cycles-ledger','depositor','fake-cmc']))})"
