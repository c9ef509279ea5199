#!/bin/bash
# exit 0: the property holds in the scenario of demo.mjs; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r "$D/." "$T/d"
VP_REPO=$R VERIF_BUILD=$T/b node "$T/d/demo.mjs"
