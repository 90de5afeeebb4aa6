#!/bin/bash
# nothing is built: check that the tools are there
cd "$(dirname "$0")" || exit 1
test -x /opt/venv/bin/python && test -f /opt/veriftools/tla/tla2tools.jar \
  && test -f /opt/veriftools/tla/CommunityModules-deps.jar && command -v java >/dev/null && echo "tools present"
