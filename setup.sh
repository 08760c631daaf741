#!/bin/bash
# Installs hypothesis from the offline wheelhouse into /verif/.deps (the checks also do it on demand).
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -c "
from vf import boot; boot.ensure_deps(); import hypothesis; print('hypothesis', hypothesis.__version__)"
