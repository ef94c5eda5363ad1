#!/bin/bash
# builds the MIR dumper (offline) and makes one dump to show that it works
set -e
cd "$(dirname "$0")"
bash engine/dump.sh build/setup none
ls -l build/setup/xml_dom.json
/bin/rm -rf "$PWD/build/setup"
