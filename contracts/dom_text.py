from cxx2why import *
N = 'Arabica::SimpleDOM::'
C = N + 'CharacterDataImpl::'
TUS = [('tu_dom.cpp', [C + '.*', N + 'TextImpl::.*', N + 'CDATASectionImpl::.*', N + 'NodeImpl::(throwIfReadOnly|getParentNode|getNextSibling|getOwnerDoc)', N + 'NodeImplWithChildren::do_.*', N + 'DocumentImpl::(orphaned|create.*)'])]
D = 'characterDataImpl_data_'
NEW = '!%s this' % D; OLD = '((old !%s) this)' % D
FR = 'forall o. o <> this -> !%s o = (old !%s) o' % (D, D)
SAME = '!%s = old !%s' % (D, D)
RO = '!nodeImpl_readOnly_ this'

def make_unit():
    u = Unit()
    u.heap = {D: 'str'}
    u.exceptions = {'DOMException': 'int'}
    u.spec = '''
  exception DOMException int
  (* the data with count characters from offset on replaced *)
  function spliced (s: str) (o n: int) (w: str) : str =
    s[0 .. o] ++ (w ++ (if o + n < length s then s[o + n .. length s] else empty))
  function piece (s: str) (o n: int) : str = if o + n < length s then s[o .. o + n] else s[o .. length s]
  predicate bad (s: str) (o: int) = o < 0 \\/ o > length s
'''
    A = u.contracts.append
    SMALL = ['length (%s) <= 2147483647' % NEW]
    def op(nm, params, bad, ens, ro=True):
        e = ['not (%s)' % bad] if bad != 'false' else []
        if ro: e.append('not %s' % RO)
        A(Contract(C + nm, nm, ['this'] + params, requires=SMALL, ensures=e + ens,
           raises=[('DOMException e', ('(%s = true /\\ e = 7 \\/ not %s /\\ (%s) /\\ e = 1) /\\ %s' % (RO, RO, bad, SAME)) if ro else '(%s) /\\ e = 1' % bad)] if (ro or bad != 'false') else []))
    op('getLength', [], 'false', ['result = length (%s)' % NEW], ro=False)
    op('substringData', ['offset', 'count'], 'bad (%s) offset \\/ count < 0' % NEW, ['result == piece (%s) offset count' % NEW], ro=False)
    op('appendData', ['arg_'], 'false', ['%s == %s ++ arg_' % (NEW, OLD), FR])
    op('setData', ['data'], 'false', ['%s = data' % NEW, FR])
    op('setNodeValue', ['data'], 'false', ['%s = data' % NEW, FR])
    op('insertData', ['offset', 'arg_'], 'bad %s offset' % OLD, ['%s == spliced %s offset 0 arg_' % (NEW, OLD), FR])
    op('deleteData', ['offset', 'count'], 'bad %s offset \\/ count < 0' % OLD, ['%s == spliced %s offset count empty' % (NEW, OLD), FR])
    op('replaceData', ['offset', 'count', 'arg_'], 'bad %s offset \\/ count < 0' % OLD, ['%s == spliced %s offset count arg_' % (NEW, OLD), FR])
    return u
