#!/bin/bash
# builds the AST dumper (the only compiled part of the verifier); offline, from committed files
cd "$(dirname "$0")" && exec python3-vt -c "
import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'.')
from vc import ast; ast.build_dumper(); print('dumper ready')"
