"""Table of the checks: module, number of cases per tier, build variant, rule."""
import importlib
from .meta import META

def load_all(ID):
    importlib.import_module('props.' + META[ID]['module'])
