"""Builds the compiler driver once."""
from common import *
driver()
print('ok')
