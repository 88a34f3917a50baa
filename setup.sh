#!/bin/bash
# Nothing is built: check that the interpreter, Hypothesis and the code under test load.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
/opt/veriftools/pyvenv/bin/python -c "
from pbt import boot
import hypothesis, pdfmajor, Crypto, PIL, yaml
import pdfmajor.parser.PDFDocument, pdfmajor.interpreter
assert pdfmajor.__file__.startswith(boot.REPO), pdfmajor.__file__
print('hypothesis', hypothesis.__version__, 'pdfmajor from', pdfmajor.__file__)
"
