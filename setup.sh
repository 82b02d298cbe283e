#!/bin/bash
# nothing is kept between runs: each check rebuilds what is stale.  This only shows that the framework imports.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import vmc.core, vmc.registry, numpy'
