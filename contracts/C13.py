"""Analyses never modify the data they are given: the frame condition of every scenario of every contract (see pyvc/run.py), and of the
functions no other contract runs."""
from pyvc.spec import *
from .common import *

SKIP = set()
SPLIT = {'C08', 'C21', 'C07'}


def contract(S):
    pass
