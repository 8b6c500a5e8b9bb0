"""C03: operands are left alone.

As C01: random programs and the scenarios of every other check; the decision
is made by the operand monitor of core.py, which compares a snapshot of every
operand from before the call, and by that of programs.py, which does so with
every larry that the program has made.
"""
from core import Registry
from checks.programs import program

R = Registry('C03')
QUICK = 4
THOROUGH = 10


@R.scenario(600)
def programs(c):
    program(c, c.rng.randint(3, 12))


@R.scenario(100)
def long_programs(c):
    program(c, 60)


@R.scenario(100)
def float_programs(c):
    program(c, c.rng.randint(10, 30), kinds='f')
