"""Structure: malformed or misplaced statements are rejected."""
from .faults_common import *

ID = "C07"
BUDGET = 40
RULE = "each case is a valid program and the same program with one structural or syntactic fault at a random place; all are non trivial (distinct faulty sources are counted)"
ASSUMPTIONS = []


class Struct(FaultTest):
    name = "struct-faults"
    family = "struct"
    weight = 2


class Expr(FaultTest):
    name = "expr-faults"
    family = "expr"


TESTS = [Struct, Expr]
