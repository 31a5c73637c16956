from cxx2why import *
A = 'Arabica::SAX::AttributesImpl::'
I = 'Arabica::SAX::Attributes::'
TUS = [('tu_sax.cpp', [A + '.*', I + '.*'])]
F = 'attributesImpl_attributes_'
NEW = '!%s this' % F
OLD = '((old !%s) this)' % F
FRAME = 'forall o. o <> this -> !%s o = (old !%s) o' % (F, F)

def make_unit():
    u = Unit()
    u.value_classes = {A + 'Attr', A + 'AttributeNamed'}
    u.functor_preds = {A + 'AttributeNamed': 'is_named'}
    u.exceptions = {'out_of_range': ''}
    u.heap = {F: '(seq r_Attr)', 'attributesImpl_emptyString_': 'str'}
    u.spec = '''
  exception Out_of_range
  predicate is_named (f: r_AttributeNamed) (a: r_Attr) =
    a.attr_uri_ = f.attributeNamed_uri_ /\\ a.attr_localName_ = f.attributeNamed_localName_
  predicate named (u l: str) (a: r_Attr) = a.attr_uri_ = u /\\ a.attr_localName_ = l
  (* the list any Attributes object presents through its interface *)
  function model (h: loc -> seq r_Attr) (o: loc) : seq r_Attr = h o
'''
    u.exceptions = {'out_of_range': ''}
    C = u.contracts.append
    fields = (('getURI', 'uri_'), ('getLocalName', 'localName_'), ('getQName', 'qName_'), ('getType', 'type_'), ('getValue', 'value_'))
    E0 = ['!attributesImpl_emptyString_ this = empty']
    for g, f in fields:
        C(Contract(A + g, 'at_' + g, ['this', 'index'], nparams=1, sig=r'\(unsigned int\)', requires=E0,
          ensures=['index < length (%s) -> result = (%s)[index].attr_%s' % (NEW, NEW, f),
                   'length (%s) <= index -> result = empty' % NEW]))
        # the interface the copied-from list is read through (any implementation): trusted to be a list of length getLength()
        C(Contract(I + g, 'if_' + g, ['this', 'index'], nparams=1, sig=r'\(unsigned int\)', prove=False,
          ensures=['index < length (model !%s this) -> result = (model !%s this)[index].attr_%s' % (F, F, f)]))
    C(Contract(I + 'getLength', 'if_getLength', ['this'], prove=False, ensures=['result = length (model !%s this)' % F, '0 <= result <= 2147483647']))
    C(Contract(A + 'getLength', 'at_getLength', ['this'], requires=['length (%s) <= 2147483647' % NEW], ensures=['result = length (%s)' % NEW]))
    SMALL = ['length (%s) <= 2147483647' % NEW]
    def first(cond): return 'forall j. 0 <= j < %s -> not (%s)' % ('k', cond)
    for nm, np, ps, P in (('Q', 1, ['qName'], '(%s)[%s].attr_qName_ = qName'), ('N', 2, ['uri', 'localName'], 'named uri localName (%s)[%s]')):
        at = lambda i: P % (NEW, i)
        loops = [Loop(inv=['0 <= i <= max', 'max = length (%s)' % NEW, 'forall j. 0 <= j < i -> not (%s)' % at('j')], var='max - i')] if nm == 'Q' else []
        C(Contract(A + 'getIndex', 'getIndex' + nm, ['this'] + ps, nparams=np, requires=SMALL,
           ensures=['-1 <= result < length (%s)' % NEW,
                    'result = -1 -> forall j. 0 <= j < length (%s) -> not (%s)' % (NEW, at('j')),
                    'result <> -1 -> %s' % at('result'),
                    'forall j. 0 <= j < result -> not (%s)' % at('j')], loops=loops))
        for g, f in (('getType', 'type_'), ('getValue', 'value_')):
            C(Contract(A + g, g + nm, ['this'] + ps, nparams=np, sig=None if nm == 'N' else r'^(?!.*\(unsigned int\))', requires=E0 + SMALL,
               ensures=['(forall j. 0 <= j < length (%s) -> not (%s)) -> result = empty' % (NEW, at('j')),
                        'forall k. 0 <= k < length (%s) -> %s -> (forall j. 0 <= j < k -> not (%s)) -> result = (%s)[k].attr_%s' % (NEW, at('k'), at('j'), NEW, f)],
               loops=loops))
    # mutators
    for g, f in (('setURI', 'uri_'), ('setLocalName', 'localName_'), ('setQName', 'qName_'), ('setType', 'type_'), ('setValue', 'value_')):
        C(Contract(A + g, g, ['this', 'index', 'v'],
           ensures=['index < length %s /\\ %s = set %s index { %s[index] with attr_%s = v }' % (OLD, NEW, OLD, OLD, f), FRAME],
           raises=[('Out_of_range', 'index >= length %s /\\ !%s = (old !%s)' % (OLD, F, F))]))
    C(Contract(A + 'setAttribute', 'setAttribute', ['this', 'index', 'uri', 'localName', 'qName', 'typ', 'value'],
       ensures=['index < length %s /\\ %s == set %s index { attr_uri_ = uri; attr_localName_ = localName; attr_qName_ = qName; attr_type_ = typ; attr_value_ = value }' % (OLD, NEW, OLD), FRAME],
       raises=[('Out_of_range', 'index >= length %s /\\ !%s = (old !%s)' % (OLD, F, F))]))
    C(Contract(A + 'removeAttribute', 'removeAttribute', ['this', 'index'],
       ensures=['index < length %s /\\ %s = %s[0 .. index] ++ %s[index + 1 .. length %s]' % (OLD, NEW, OLD, OLD, OLD), FRAME],
       raises=[('Out_of_range', 'index >= length %s /\\ !%s = (old !%s)' % (OLD, F, F))]))
    C(Contract(A + 'clear', 'clear', ['this'], ensures=['length (%s) = 0' % NEW, FRAME]))
    ATTR = '{ attr_uri_ = uri; attr_localName_ = localName; attr_qName_ = qName; attr_type_ = typ; attr_value_ = value }'
    C(Contract(A + 'addAttribute', 'addAttribute5', ['this', 'uri', 'localName', 'qName', 'typ', 'value'], nparams=5,
       ensures=['%s = snoc %s %s' % (NEW, OLD, ATTR), FRAME]))
    C(Contract(A + 'addAttribute', 'addAttribute1', ['this', 'attr'], nparams=1, ensures=['%s = snoc %s attr' % (NEW, OLD), FRAME]))
    C(Contract(A + 'addOrReplaceAttribute', 'addOrReplaceAttribute', ['this', 'uri', 'localName', 'qName', 'typ', 'value'],
       ensures=['(forall j. 0 <= j < length %s -> not named uri localName %s[j]) -> %s = snoc %s %s' % (OLD, OLD, NEW, OLD, ATTR),
                'forall k. 0 <= k < length %s -> named uri localName %s[k] -> (forall j. 0 <= j < k -> not named uri localName %s[j]) -> %s = set %s k { %s[k] with attr_value_ = value }' % (OLD, OLD, OLD, NEW, OLD, OLD), FRAME]))
    C(Contract(A + 'setAttributes', 'setAttributes', ['this', 'atts'], requires=['atts <> 0'],
       ensures=['%s == model (old !%s) atts' % (NEW, F), FRAME],
       loops=[Loop(inv=['0 <= i <= max', 'max = length (model !%s atts)' % F, 'length attributes = i', '!%s = (old !%s)' % (F, F),
                        'forall j. 0 <= j < i -> attributes[j] = (model !%s atts)[j]' % F], var='max - i')]))
    C(Contract(A + 'badIndex', 'badIndex', ['this', 'index'], prove=False, ensures=['false'], raises=[('Out_of_range', 'true')]))
    return u
