"""WhyML meaning of the standard-library operations used by the verified code.
These are the trusted contracts on dependencies; prelude.mlw holds their text."""
import re
from cxx2why import *

def isstr(w): return w == 'str'
def isseq(w): return w == 'str' or w.startswith('(seq')

def obj(tr, e):
    """(prefix, LV) of the object of a member call or of the first operand of an operator call"""
    o = e.get('obj') if 'obj' in e else e['args'][0]
    if e.get('arrow'):
        if o['k'] == 'CXXOperatorCallExpr' and o['op'] == '->' and tr.u.wty(o['args'][0]['t'])[:5] in ('(iter', '(rite'): return tr.iterderef(o['args'][0])
        raise Unsupported('std method through pointer')
    if tr.isthis(o):
        raise Unsupported('std method on this')
    return tr.lv(o)

def rdargs(tr, e, skip=0):
    return [tr.rd(a) for a in e['args'][skip:]]

def mut(tr, e, p, l, build, exs, ret='()'):
    """container := build(current, args)"""
    names = []; pre = list(p)
    for x in exs:
        if x.eff:
            t = tr.fresh(); pre.append('let %s = %s in' % (t, x.s)); names.append(t)
        else: names.append(x.s)
    cur = atom(tr.read(l).s)
    t = tr.fresh('c')
    s = '(%s let %s = %s in %s; %s)' % (' '.join(pre), t, build(cur, [atom(n) for n in names]), tr.write(l, t), ret)
    return Ex(s, True)

def pure(tr, p, l, exs, build):
    cur = tr.read(l)
    x = tr.seq([cur] + exs, lambda v: build(*[atom(y) for y in v]))
    return tr.withpre(p, x)

def tostr(tr, a):
    """argument that may be a std::string, a char or a char literal array"""
    w = tr.u.wty_safe(a['t'])
    if w == 'int' and a['t'].replace('const ', '').strip().endswith('*') or a['k'] == 'StringLiteral' or (a['k'] == 'ImplicitCastExpr' and a['ck'] == 'ArrayToPointerDecay'):
        x = a
        while x['k'] == 'ImplicitCastExpr': x = x['c'][0]
        if x['k'] == 'StringLiteral': return Ex(tr.strlit(x['v']))
        if x['k'] == 'ConditionalOperator':
            c = tr.rd(x['c'][0]); y, z = tostr(tr, x['c'][1]), tostr(tr, x['c'][2])
            return Ex('(if %s then %s else %s)' % (c.s, y.s, z.s), c.eff)
        raise Unsupported('C string argument')
    if w == 'int':
        x = tr.rd(a); return Ex('(snoc empty %s)' % atom(x.s), x.eff)
    return tr.rd(a)

FLOPS = {'std::plus::operator()': 'fl_add', 'std::minus::operator()': 'fl_sub', 'std::multiplies::operator()': 'fl_mul', 'std::divides::operator()': 'fl_div'}
def ischararg(tr, a): return noref(a['t']) in INT

def call(tr, e, q):
    fn = e['fn']; k = e['k']
    args = e.get('args', [])
    S = 'std::basic_string::'
    if q in FLOPS and k == 'CXXOperatorCallExpr':
        if tr.u.wty(args[1]['t']) != 'fl': raise Unsupported(q)
        return tr.seq(rdargs(tr, e, 1), lambda v: '(%s %s %s)' % (FLOPS[q], atom(v[0]), atom(v[1])))
    if q.endswith('::operator()') and q[:-12] in FUNCTORS and k == 'CXXOperatorCallExpr':
        w = tr.u.wty(args[1]['t']); op = FUNCTORS[q[:-12]]
        if w == 'int': f = '(%s ' + {'==': '=', '!=': '<>'}.get(op, op) + ' %s)'
        elif w == 'fl': f = {'==': '(fl_eq %s %s)', '!=': '(not (fl_eq %s %s))', '<': '(fl_lt %s %s)', '>': '(fl_gt %s %s)', '<=': '(fl_le %s %s)', '>=': '(fl_ge %s %s)'}[op]
        elif w == 'str' and op in ('==', '!=', '<'): f = {'==': '(str_eq %s %s)', '!=': '(not (str_eq %s %s))', '<': '(str_lt %s %s)'}[op]
        elif w == 'str' and op == '>': return tr.seq(rdargs(tr, e, 1), lambda v: '(str_lt %s %s)' % (atom(v[1]), atom(v[0])))
        elif w[:5] in ITEQ and op in ('==', '!='): f = ('(%s %%s %%s)' if op == '==' else '(not (%s %%s %%s))') % ITEQ[w[:5]]
        else: raise Unsupported(q + ' of ' + w)
        return tr.seq(rdargs(tr, e, 1), lambda v: f % (atom(v[0]), atom(v[1])))
    if k == 'CXXOperatorCallExpr':
        return opcall(tr, e, q)
    if k == 'CXXMemberCallExpr':
        cls = noref(fn['cls'])
        h = head(cls)
        m = q.split('::')[-1]
        if h in ('std::basic_string', 'std::vector', 'std::deque', 'std::stack', 'std::list'):
            p, l = obj(tr, e)
            isS = h == 'std::basic_string'
            if m == 'empty': return pure(tr, p, l, [], lambda c: '(length %s = 0)' % c)
            if m in ('length', 'size') and isS and tr.u.strlen: return pure(tr, p, l, [], lambda c: '(str_len %s)' % c)
            if m in ('length', 'size'): return pure(tr, p, l, [], lambda c: '(length %s)' % c)
            if m in ('back', 'top'): return pure(tr, p, l, [], lambda c: '(sq_last %s)' % c)
            if m == 'front': return pure(tr, p, l, [], lambda c: '%s[0]' % c)
            if m in ('operator[]', 'at'): return pure(tr, p, l, rdargs(tr, e), lambda c, i: '%s[%s]' % (c, i))
            if m in ('begin', 'cbegin'): return pure(tr, p, l, [], lambda c: '(it_begin %s)' % c)
            if m in ('end', 'cend'): return pure(tr, p, l, [], lambda c: '(it_end %s)' % c)
            if m in ('rbegin', 'crbegin'): return pure(tr, p, l, [], lambda c: '(rit_begin %s)' % c)
            if m in ('rend', 'crend'): return pure(tr, p, l, [], lambda c: '(rit_end %s)' % c)
            if m in ('push_back', 'push', 'emplace_back') and len(args) == 1: return mut(tr, e, p, l, lambda c, v: 'snoc %s %s' % (c, v[0]), rdargs(tr, e))
            if m in ('pop_back', 'pop'): return mut(tr, e, p, l, lambda c, v: 'sq_pop %s' % c, [])
            if m == 'clear': return mut(tr, e, p, l, lambda c, v: 'empty', [])
            if m == 'swap':
                p2, l2 = tr.lv(args[0])
                a = tr.fresh(); b = tr.fresh()
                return Ex('(%s let %s = %s in let %s = %s in %s; %s)' % (' '.join(p + p2), a, tr.read(l).s, b, tr.read(l2).s, tr.write(l, b), tr.write(l2, a)), True)
            if m == 'reserve': return Ex('()')
            if m == 'insert' and not isS and len(args) == 2 and tr.u.wty_safe(args[0]['t']).startswith('(iter') and not tr.u.wty_safe(args[1]['t']).startswith('(iter'):
                return mut(tr, e, p, l, lambda c, v: 'sq_insert %s %s %s' % (c, v[0], v[1]), rdargs(tr, e))
            if m == 'erase' and not isS or m == 'erase' and 'iterator' in fn['sig']:
                a = rdargs(tr, e)
                if len(a) == 1: return mut(tr, e, p, l, lambda c, v: 'sq_erase %s %s' % (c, v[0]), a)
                return mut(tr, e, p, l, lambda c, v: 'sq_erase2 %s %s %s' % (c, v[0], v[1]), a)
            if isS:
                if m == 'substr':
                    a = rdargs(tr, e)
                    if len(a) == 1: a.append(Ex('npos_'))
                    return pure(tr, p, l, a, lambda c, o, n: '(substr %s %s %s)' % (c, o, n))
                if m == 'find':
                    if len(args) > 2: raise Unsupported('find/3')
                    fr = tr.rd(args[1]) if len(args) > 1 else Ex('0')
                    if ischararg(tr, args[0]): return pure(tr, p, l, [tr.rd(args[0]), fr], lambda c, a, f: '(str_find %s %s %s)' % (c, a, f))
                    return pure(tr, p, l, [tostr(tr, args[0]), fr], lambda c, a, f: '(str_findstr %s %s %s)' % (c, a, f))
                if m == 'rfind' and ischararg(tr, args[0]): return pure(tr, p, l, [tr.rd(args[0])], lambda c, a: '(str_rfind %s %s)' % (c, a))
                if m in ('append', 'operator+='):
                    if len(args) == 2 and tr.u.wty_safe(args[0]['t']).startswith('(iter'):
                        return mut(tr, e, p, l, lambda c, v: '%s ++ sq_range %s %s' % (c, v[0], v[1]), rdargs(tr, e))
                    if len(args) == 1: return mut(tr, e, p, l, lambda c, v: '%s ++ %s' % (c, v[0]), [tostr(tr, args[0])])
                if m == 'insert' and len(args) == 2 and 'iterator' not in fn['params'][0]:
                    return mut(tr, e, p, l, lambda c, v: 'str_insert %s %s %s' % (c, v[0], v[1]), [tr.rd(args[0]), tostr(tr, args[1])])
                if m == 'replace' and len(args) == 3 and 'iterator' not in fn['params'][0]:
                    return mut(tr, e, p, l, lambda c, v: 'str_replace %s %s %s %s' % (c, v[0], v[1], v[2]), [tr.rd(args[0]), tr.rd(args[1]), tostr(tr, args[2])])
                if m == 'erase':
                    a = rdargs(tr, e)
                    if len(a) == 1: a.append(Ex('npos_'))
                    return mut(tr, e, p, l, lambda c, v: 'str_erase %s %s %s' % (c, v[0], v[1]), a)
                if m == 'compare' and len(args) == 1: raise Unsupported('compare')
                if m in ('c_str', 'data'): return tr.withpre(p, tr.read(l))
        if h == 'std::map':
            p, l = obj(tr, e)
            if m == 'find': return pure(tr, p, l, rdargs(tr, e), lambda c, x: '(mi_find %s %s)' % (c, x))
            if m == 'end': return pure(tr, p, l, [], lambda c: '(mi_end %s)' % c)
            if m == 'count': return pure(tr, p, l, rdargs(tr, e), lambda c, x: '(if mp_mem %s %s then 1 else 0)' % (c, x))
            if m == 'at': return pure(tr, p, l, rdargs(tr, e), lambda c, x: '(mp_get %s %s)' % (c, x))
            if m == 'erase' and 'iterator' not in fn['params'][0]: return mut(tr, e, p, l, lambda c, v: 'mp_erase %s %s' % (c, v[0]), rdargs(tr, e))
            if m == 'insert' and len(args) == 1:
                t = tr.fresh(); x = tr.rd(args[0])
                return mut(tr, e, p + ['let %s = %s in' % (t, x.s)], l, lambda c, v: '(let (z_1, z_2) = %s in mp_insert %s z_1 z_2)' % (t, c), [])
            if m == 'operator[]':
                pp, ll = tr.oplv({'k': 'CXXOperatorCallExpr', 'op': '[]', 'args': [e['obj']] + args, 't': e['t'], 'fn': fn})
                return tr.withpre(pp, tr.read(ll))
            if m == 'clear': return mut(tr, e, p, l, lambda c, v: 'mp_empty', [])
        if h == 'std::multimap':
            p, l = obj(tr, e)
            if m == 'find': return pure(tr, p, l, rdargs(tr, e), lambda c, x: '(mmi_find %s %s)' % (c, x))
            if m == 'end': return pure(tr, p, l, [], lambda c: '(mmi_end %s)' % c)
            if m == 'insert' and len(args) == 1:
                t = tr.fresh(); x = tr.rd(args[0])
                return mut(tr, e, p + ['let %s = %s in' % (t, x.s)], l, lambda c, v: '(let (z_1, z_2) = %s in mmp_insert %s z_1 z_2)' % (t, c), [])
        if h == 'std::set':
            p, l = obj(tr, e)
            if m == 'find': return pure(tr, p, l, rdargs(tr, e), lambda c, x: '(si_find %s %s)' % (c, x))
            if m == 'end': return pure(tr, p, l, [], lambda c: '(si_end %s)' % c)
            if m == 'erase' and tr.u.wty_safe(args[0]['t']).startswith('(siter'): return mut(tr, e, p, l, lambda c, v: 'st_erase_it %s %s' % (c, v[0]), rdargs(tr, e))
            if m in ('insert',) and len(args) == 1: return mut(tr, e, p, l, lambda c, v: 'st_insert %s %s' % (c, v[0]), rdargs(tr, e))
            if m == 'erase': return mut(tr, e, p, l, lambda c, v: 'st_erase %s %s' % (c, v[0]), rdargs(tr, e))
            if m == 'count': return pure(tr, p, l, rdargs(tr, e), lambda c, x: '(if %s %s then 1 else 0)' % (c, x))
        if h in ('boost::shared_ptr', 'std::shared_ptr', 'std::unique_ptr') and m == 'get':
            return tr.rd(e['obj'])
        if h.startswith('std::unique_ptr') and m == 'release':
            return tr.rd(e['obj'])
        if m == 'base' and h == 'std::reverse_iterator': return None
        return None
    # free functions
    if q == 'std::make_pair':
        x = tr.seq(rdargs(tr, e), lambda v: '(%s, %s)' % (v[0], v[1])); return x
    if q in ('std::min', 'std::max') and len(args) == 2 and tr.u.wty(args[0]['t']) == 'int':
        op = '<=' if q == 'std::min' else '>='
        return tr.seq(rdargs(tr, e), lambda v: '(let m_1 = %s in let m_2 = %s in if m_1 %s m_2 then m_1 else m_2)' % (v[0], v[1], op))
    if q == 'std::distance':
        return tr.seq(rdargs(tr, e), lambda v: '(it_diff %s %s)' % (atom(v[1]), atom(v[0])))
    if q in ('std::move', 'std::forward'): return tr.rd(args[0])
    if q == 'std::swap':
        p, l = tr.lv(args[0]); p2, l2 = tr.lv(args[1])
        a = tr.fresh(); b = tr.fresh()
        return Ex('(%s let %s = %s in let %s = %s in %s; %s)' % (' '.join(p + p2), a, tr.read(l).s, b, tr.read(l2).s, tr.write(l, b), tr.write(l2, a)), True)
    if q == 'std::find' and tr.u.wty(args[0]['t']).startswith('(iter'):
        w = tr.u.wty(args[2]['t'])
        return tr.seq(rdargs(tr, e), lambda v: '(it_find %s %s %s)' % tuple(map(atom, v)))
    if q in ('std::find_if', 'std::find_if_not') and tr.u.wty(args[0]['t']).startswith('(iter'):
        return find_if(tr, e)
    if q == 'std::isnan': 
        x = tr.rd(args[0]); return Ex('(fl_isnan %s)' % atom(x.s), x.eff)
    if q in ('floor', 'std::floor'): 
        x = tr.rd(args[0]); return Ex('(fl_floor %s)' % atom(x.s), x.eff)
    if q in ('ceil', 'std::ceil'):
        x = tr.rd(args[0]); return Ex('(fl_ceil %s)' % atom(x.s), x.eff)
    if q in ('fabs', 'std::fabs', 'std::abs') and tr.u.wty_safe(args[0]['t']) == 'fl':
        x = tr.rd(args[0]); return Ex('(fl_fabs %s)' % atom(x.s), x.eff)
    if q in ('fmod', 'std::fmod'):
        return tr.seq(rdargs(tr, e), lambda v: '(fl_fmod %s %s)' % tuple(map(atom, v)))
    return None

def find_if(tr, e):
    """std::find_if as the loop that defines it, over the functor's real operator()"""
    a = e['args']
    pre = []
    x = tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(%s, %s)' % (v[0], v[1]))
    i0 = tr.fresh('ff'); i1 = tr.fresh('fe')
    f = a[2]
    while f['k'] in ('ImplicitCastExpr',) or (f['k'] == 'CXXConstructExpr' and f.get('copy')):
        f = f['c'][0] if 'c' in f else f['args'][0]
    ft = noref(f['t'])
    # the functor's call operator
    ops = [g for g in tr.u.byq.get(head(ft) + '::operator()', []) if noref(g['cls']) == ft]
    if head(ft) not in tr.u.value_classes or len(ops) != 1: raise Unsupported('find_if functor ' + ft)
    g = ops[0]
    fv = tr.fresh('fun')
    fx = tr.rd(f)
    key = re.sub('[^A-Za-z0-9]', '_', tr.u.short(head(ft)))
    pred = tr.u.functor_preds.get(head(ft))
    if callable(pred): pred = pred(ft)
    if pred is None: raise Unsupported('find_if functor without predicate name: ' + ft)
    # translate operator() inline on element el
    el = tr.fresh('el')
    tr.vars[g['pdecls'][0]['id']] = Var('imm', el, g['pdecls'][0]['t'])
    tr.thisstack.append(LV(('imm', fv), (), ft)); tr.inl.append(g['q'])
    if g['q'] not in tr.inlined: tr.inlined.append(g['q'])
    try: body = tr.fbody(g)
    finally: tr.thisstack.pop(); tr.inl.pop()
    s = '''(let %(fv)s = %(fx)s in let (%(i0)s, %(i1)s) = %(x)s in
  (if not (%(i0)s.it_p <= %(i1)s.it_p) then absurd);
  let k_ff = ref %(i0)s.it_p in
  while !k_ff < %(i1)s.it_p && not (let %(el)s = %(i0)s.it_c[!k_ff] in %(body)s) do
    invariant { %(i0)s.it_p <= !k_ff <= %(i1)s.it_p }
    invariant { forall k. %(i0)s.it_p <= k < !k_ff -> not (%(pred)s %(fv)s %(i0)s.it_c[k]) }
    variant { %(i1)s.it_p - !k_ff }
    k_ff := !k_ff + 1
  done;
  { it_c = %(i0)s.it_c; it_p = !k_ff })''' % dict(fv=fv, fx=fx.s, i0=i0, i1=i1, x=x.s, el=el, body=body, pred=pred)
    return Ex(s, True)

ITADD = {'(iter': 'it_add', '(rite': 'rit_add'}
ITEQ = {'(iter': 'it_eq', '(rite': 'rit_eq', '(mite': 'mi_iseq', '(mmit': 'mmi_iseq', '(site': 'si_iseq'}

def opcall(tr, e, q):
    op = e['op']; a = e['args']
    w = tr.u.wty_safe(a[0]['t'])
    w5 = w[:5]
    if op in ('==', '!='):
        neg = (lambda s: s) if op == '==' else (lambda s: '(not %s)' % s)
        if w5 in ITEQ:
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: neg('(%s %s %s)' % (ITEQ[w5], atom(v[0]), atom(v[1]))))
        if w == 'str' or tr.u.wty_safe(a[1]['t']) == 'str':
            return tr.seq([tostr(tr, a[0]), tostr(tr, a[1])], lambda v: neg('(str_eq %s %s)' % (atom(v[0]), atom(v[1]))))
        if w.startswith('(seq'):
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: neg('(seq_eq %s %s)' % (atom(v[0]), atom(v[1]))))
        if w == 'loc':
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: neg('(%s = %s)' % (atom(v[0]), atom(v[1]))))
        if w == 'int':
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: neg('(%s = %s)' % (atom(v[0]), atom(v[1]))))
        return None
    if op == '<' and w == 'str':
        return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(str_lt %s %s)' % (atom(v[0]), atom(v[1])))
    if op == '<' and w5 == '(iter':
        return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(it_lt %s %s)' % (atom(v[0]), atom(v[1])))
    if op == '*' and len(a) == 1:
        p, l = tr.iterderef(a[0]) if w != 'loc' else tr.oplv(e)
        return tr.withpre(p, tr.read(l))
    if op == '->':
        if w == 'loc': return tr.rd(a[0])
        return None
    if op in ('++', '--') and w5 in ITADD:
        p, l = tr.lv(a[0])
        cur = tr.read(l).s
        d = '1' if op == '++' else '(-1)'
        nv = '(%s %s %s)' % (ITADD[w5], atom(cur), d)
        if len(a) == 2:
            o = tr.fresh('o')
            return Ex('(%s let %s = %s in %s; %s)' % (' '.join(p), o, cur, tr.write(l, nv), o), True)
        return Ex('(%s %s; %s)' % (' '.join(p), tr.write(l, nv), tr.read(l).s), True)
    if op in ('+', '-') and w5 in ITADD:
        w2 = tr.u.wty_safe(a[1]['t'])
        if w2 == 'int':
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(%s %s %s)' % (ITADD[w5], atom(v[0]), atom(v[1]) if op == '+' else '(- %s)' % atom(v[1])))
        return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(%s %s %s)' % ('rit_diff' if w5 == '(rite' else 'it_diff', atom(v[0]), atom(v[1])))
    if op in ('+=', '-=') and w5 in ITADD:
        p, l = tr.lv(a[0])
        x = tr.rd(a[1])
        return mut(tr, e, p, l, lambda c, v: '%s %s %s' % (ITADD[w5], c, v[0] if op == '+=' else '(- %s)' % v[0]), [x])
    if op == '+' and (w == 'str' or tr.u.wty_safe(a[1]['t']) == 'str'):
        return tr.seq([tostr(tr, a[0]), tostr(tr, a[1])], lambda v: '(%s ++ %s)' % (atom(v[0]), atom(v[1])))
    if op == '+=' and w == 'str':
        p, l = tr.lv(a[0])
        if ischararg(tr, a[1]): return mut(tr, e, p, l, lambda c, v: 'snoc %s %s' % (c, v[0]), [tr.rd(a[1])], tr.read(l).s)
        return mut(tr, e, p, l, lambda c, v: '%s ++ %s' % (c, v[0]), [tostr(tr, a[1])], tr.read(l).s)
    if op == '=':
        fn = e['fn']
        cls = head(noref(a[0]['t']))
        if w == 'str': return tr.assign(e, a[0], lambda: tostr(tr, a[1]))
        return tr.assign(e, a[0], lambda: tr.rd(a[1]))
    if op == '[]':
        p, l = tr.oplv(e); return tr.withpre(p, tr.read(l))
    return None

def construct(tr, e, t):
    h = head(t); a = e['args']
    w = tr.u.wty_safe(t)
    if h == 'std::basic_string':
        a = [x for x in a if not head(noref(x['t'])).startswith('std::allocator')]
        if not a: return Ex('empty')
        if len(a) == 1: return tostr(tr, a[0])
        if len(a) == 2 and tr.u.wty_safe(a[0]['t']).startswith('(iter'):
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(sq_range %s %s)' % (atom(v[0]), atom(v[1])))
        if len(a) in (2, 3) and tr.u.wty_safe(a[0]['t']) == 'str':
            xs = [tr.rd(x) for x in a]
            if len(xs) == 2: xs.append(Ex('npos_'))
            return tr.seq(xs, lambda v: '(substr %s)' % ' '.join(map(atom, v)))
        if len(a) == 2 and noref(a[0]['t']) == 'unsigned long':
            return tr.seq([tr.rd(a[0]), tr.rd(a[1])], lambda v: '(str_fill %s %s)' % tuple(map(atom, v)))
        return None
    if h in ('std::vector', 'std::deque', 'std::stack', 'std::list'):
        if not a: return Ex('empty')
        if len(a) == 1 and tr.u.wty_safe(a[0]['t']) == w: return tr.rd(a[0])
        return None
    if h in ('std::map', 'std::multimap', 'std::set'):
        if not a: return Ex({'std::map': 'mp_empty', 'std::multimap': 'mmp_empty', 'std::set': 'st_empty'}[h])
        if len(a) == 1 and tr.u.wty_safe(a[0]['t']) == w: return tr.rd(a[0])
        return None
    if h == 'std::pair':
        if len(a) == 2: return tr.seq([tr.rd(x) for x in a], lambda v: '(%s, %s)' % (v[0], v[1]))
        if len(a) == 1: return tr.rd(a[0])
        return None
    if w[:5] in ('(iter', '(rite', '(mite', '(mmit', '(site') and len(a) == 1: return tr.rd(a[0])
    if h in ('boost::shared_ptr', 'std::shared_ptr', 'std::unique_ptr'):
        if not a: return Ex('0')
        return tr.rd(a[0])
    return None
