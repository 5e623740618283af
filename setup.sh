#!/bin/bash
# nothing to compile: the verifier is Python; check that its parts are there
cd "$(dirname "$0")" || exit 1
export PYTHONPATH=/opt/venv/lib/python3.12/site-packages:"$PWD":/repo PYTHONDONTWRITEBYTECODE=1
exec python3-vt -W ignore -c 'import z3, lxml.etree, ezodf, pyvc.verify; print("pyvc ready, z3", z3.get_version_string(), "lxml", lxml.etree.LXML_VERSION)'
