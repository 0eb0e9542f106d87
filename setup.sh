#!/bin/bash
# Nothing to build: checks that the tools are there and that the specification parses.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c 'import sys' || exit 1
cd spec || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -cp "$CP" tla2sany.SANY SdkTrace.tla > /dev/null || exit 1
