import domtree
from cxx2why import *
TUS = []
def make_unit():
    u = Unit(); u.heap = {}; u.spec = domtree.SPEC.replace('@MEM@', domtree.MEMDEF).replace('@MINUS@', domtree.MINUS) + domtree.UPLEMMAS; return u
