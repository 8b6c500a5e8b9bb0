"""C01: well-formed results.

The workload is random programs (programs.py) and, through the union in
main.py, the scenarios of every other check; the decision is made by the
well-formedness monitor of core.py on every larry that goes in or comes out.
"""
from core import Registry
from checks.programs import program

R = Registry('C01')
QUICK = 4
THOROUGH = 10


@R.scenario(600)
def programs(c):
    program(c, c.rng.randint(3, 12))


@R.scenario(100)
def long_programs(c):
    program(c, 60)


@R.scenario(100)
def float_programs(c):
    program(c, c.rng.randint(10, 30), kinds='f')
