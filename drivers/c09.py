"""C09: digests of written records"""
import c08
from c08 import gen, RULE


def check(case):
    return c08.check(case, True)
