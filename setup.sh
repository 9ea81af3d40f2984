#!/bin/bash
# Builds the harness once per configuration (offline) so that the first check starts warm; checks rebuild what changed.
set -e
cd "$(dirname "$0")"
python3-vt -c "from dxv import build; print('built in %.1f s' % build.build())"
