#!/bin/sh
# nothing is built in advance: every check compiles /repo's current sources itself
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3, cvc5, numpy" || python3-vt -c "import z3, cvc5, numpy"
command -v clang++-18 >/dev/null && command -v opt-18 >/dev/null
