"""cxx2why: mechanical translation of exported C++ function bodies to WhyML.

Input: the JSON written by tools/exporter (the compiler's own AST of the code in
/repo, templates instantiated).  Output: one WhyML program function per C++
function under contract.  What is modelled and what is dropped is listed in
DESIGN.md ("What the extraction keeps and drops").
Anything outside the supported subset raises Unsupported: the function is then
reported as not translated, never silently approximated.
"""
import re, json

class Unsupported(Exception):
    pass

INT = {
    'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-2**15, 2**15-1), 'unsigned short': (0, 2**16-1),
    'int': (-2**31, 2**31-1), 'unsigned int': (0, 2**32-1),
    'long': (-2**63, 2**63-1), 'unsigned long': (0, 2**64-1),
    'long long': (-2**63, 2**63-1), 'unsigned long long': (0, 2**64-1),
    'wchar_t': (-2**31, 2**31-1), 'char16_t': (0, 2**16-1), 'char32_t': (0, 2**32-1),
}
TAG = {'int': 's32', 'unsigned int': 'u32', 'long': 's64', 'unsigned long': 'u64', 'long long': 's64',
       'unsigned long long': 'u64', 'char': 's8', 'signed char': 's8', 'unsigned char': 'u8',
       'short': 's16', 'unsigned short': 'u16', 'wchar_t': 's32', 'char16_t': 'u16', 'char32_t': 'u32'}

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for
forall fun function ghost goal if import in inductive invariant label lemma let match meta module mutable not
old partial predicate private pure raise raises range reads rec ref requires return returns scope so
then theory to true try type use val variant while with writes result length empty get set snoc cons null loc
str create min max abs div mod fst snd'''.split())

def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):].strip(); ch = True
        for p in (' const', ' volatile'):
            if t.endswith(p):
                t = t[:-len(p)].strip(); ch = True
        if t.endswith('*const'):
            t = t[:-5].strip(); ch = True
    return t

def noref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return strip_cv(t)

def is_ref(t): return t.strip().endswith('&')
def is_const_ref(t):
    t = t.strip()
    if not t.endswith('&'): return False
    return t.rstrip('& ').startswith('const ') or t.rstrip('& ').endswith(' const')

def targs(t):
    """top-level template arguments of a type string"""
    i = t.find('<')
    if i < 0: return []
    d = 0; out = []; cur = ''
    for c in t[i+1:]:
        if c == '<': d += 1
        if c == '>':
            if d == 0:
                out.append(cur.strip()); return out
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    return out

def lcf(n): return n[0].lower() + n[1:]

_heads = {}
def head(t):
    r = _heads.get(t)
    if r is not None: return r
    out = []; d = 0
    for c in t:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
    r = _heads[t] = ''.join(out).strip()
    return r

class Ex:
    __slots__ = ('s', 'eff')
    def __init__(self, s, eff=False): self.s = s; self.eff = eff
    def __repr__(self): return 'Ex(%r,%r)' % (self.s, self.eff)

class LV:
    """an lvalue: base + access path.  base: ('local',name) | ('field',map,locatom) | ('val',text) | ('mem',kind,addr) | ('objf'..)"""
    def __init__(self, base, path=(), ty=''): self.base = base; self.path = tuple(path); self.ty = ty
    def plus(self, step, ty): return LV(self.base, self.path + (step,), ty)

class Var:
    def __init__(self, kind, name, ty, lv=None): self.kind = kind; self.name = name; self.ty = ty; self.lv = lv; self.cont = None

def atom(s):
    if re.fullmatch(r"[A-Za-z_0-9.'!]+", s): return s
    if s.startswith('(') and s.endswith(')'):
        d = 0
        for i, c in enumerate(s):
            if c == '(': d += 1
            if c == ')':
                d -= 1
                if d == 0 and i < len(s) - 1: return '(' + s + ')'
        return s
    return '(' + s + ')'

class Unit:
    """a set of exported functions, records, contracts and type classifications"""
    def __init__(self):
        self.funcs = {}       # id -> json
        self.byq = {}         # qualified name -> [json]
        self.records = {}     # canonical type -> json
        self.contracts = {}   # key -> Contract
        self.local_new = {}         # class -> val that makes one (objects with an identity, used as a local)
        self.value_classes = set()   # heads (qualified, no template args)
        self.handle_classes = {}     # head -> whytype (default loc)
        self.mem = False
        self.builtins = []    # extra (regex, fn)
        self.enums_as_int = True
        self.fieldtypes = {}  # heap map name -> why type (encountered)
        self.opaque_types = {}  # head -> why type
        self.dyncast = {}
        self.noinline = set()
        self.globals_ = {}
        self.devirtual = set()
        self.new_contracts = {}
        self.exceptions = {}
        self.exc_bases = {}
        self.contracts_by_q = {}
        self.functor_preds = {}
        self.poly_records = {}      # head -> (type -> why3 type, declaration): one record for all instances of a class template
        self.fnptr_sel = None; self.fnptr_this = {}
        self.fnptrs = {}      # qualified function name -> (number, contract name): functions whose address is taken
        self.value_pick = {}
        self.heap = {}
        self.strlen = False   # read lengths of strings through str_len (below 2^63)
        self.tables = {}      # constant global arrays of integers the code reads: name -> WhyML definition
        self.callsig = {}
        self.spec = ''
        self.contracts = []
    def const_table(self, q, dims, init):
        f = 'tbl_' + re.sub(r'\W+', '_', q)
        if f not in self.tables:
            try: cells = table_cells(init, dims)
            except (KeyError, ValueError): raise Unsupported('initialiser of ' + q)
            if len(dims) > 2: raise Unsupported('array ' + q)
            def col(get):
                out = '0'
                for n in reversed(range(dims[0])): out = 'if i = %d then %d else %s' % (n, get(n), out) if get(n) >= 0 else 'if i = %d then (%d) else %s' % (n, get(n), out)
                return out
            if len(dims) == 1: d = 'function %s (i: int) : int = %s\n' % (f, col(lambda n: cells[n])); ps = '(i: int)'; pre = '0 <= i < %d' % dims[0]; ar = 'i'
            else:
                d = ''
                for j in range(dims[1]): d += 'function %s_%d (i: int) : int = %s\n' % (f, j, col(lambda n: cells[n][j]))
                d += 'function %s (i j: int) : int = %s\n' % (f, ' else '.join(['if j = %d then %s_%d i' % (j, f, j) for j in range(dims[1])] + ['0']))
                ps = '(i j: int)'; pre = '0 <= i < %d /\\ 0 <= j < %d' % tuple(dims); ar = 'i j'
            d += 'val get_%s %s : int requires { %s } ensures { result = %s %s }\n' % (f, ps, pre, f, ar)
            self.tables[f] = d
        return f
    def load(self, js):
        for f in js['functions']:
            self.funcs[f['id']] = f
            self.byq.setdefault(f['q'], []).append(f)
        for r in js['records']:
            self.records[r['t']] = r
    def bases(self, t):
        out = [t]; seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            r = self.records.get(x)
            if not r: continue
            for b in r['bases']:
                if b not in seen:
                    seen.add(b); out.append(b); todo.append(b)
        return out

    # ---- types
    def wty(self, t):
        t = noref(t)
        h = head(t)
        if t.endswith('>::Result'): return 'int'
        if self.fnptrs and ('(*)(' in t or '::*)(' in t or '::*const)(' in t or '(*const)(' in t): return 'int'
        if h in FUNCTORS: return 'unit'
        if t in self.opaque_types: return self.opaque_types[t]
        if h in self.opaque_types: return self.opaque_types[h]
        if t == 'bool': return 'bool'
        if t in INT: return 'int'
        if t in ('double', 'float', 'long double'): return 'fl'
        if t == 'void': return 'unit'
        if t.endswith('*'):
            inner = strip_cv(t[:-1])
            if inner in INT: return 'int'
            return 'loc'
        if h in ('std::basic_string', 'std::__cxx11::basic_string'): return 'str'
        if h in self.handle_classes: return self.handle_classes[h]
        if h in self.value_classes: return self.recname(t)
        if h in ('std::vector', 'std::deque', 'std::stack', 'std::list'):
            return '(seq %s)' % self.wty(targs(t)[0])
        if h == 'std::map':
            a = targs(t); return '(mp %s %s)' % (self.wty(a[0]), self.wty(a[1]))
        if h == 'std::multimap':
            a = targs(t); return '(mmp %s %s)' % (self.wty(a[0]), self.wty(a[1]))
        if h == 'std::set':
            a = targs(t); return '(st %s)' % self.wty(a[0])
        if h == 'std::pair':
            a = targs(t); return '(%s, %s)' % (self.wty(a[0]), self.wty(a[1]))
        if h in ('boost::shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'std::auto_ptr', 'std::weak_ptr'): return 'loc'
        if h == '__gnu_cxx::__normal_iterator':
            c = strip_cv(targs(t)[1]); return '(iter %s)' % self.elem(c)
        if h == 'std::_Deque_iterator':
            return '(iter %s)' % self.wty(targs(t)[0])
        if h == 'std::reverse_iterator':
            return '(riter %s)' % self.wty(self.itelem(targs(t)[0]))
        if h in ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator'):
            p = targs(t)[0]
            if head(p) == 'std::pair':
                a = targs(p); return '(miter %s %s)' % (self.wty(a[0]), self.wty(a[1]))
            return '(siter %s)' % self.wty(p)
        if t in self.records or '::' in t:
            r = self.records.get(t)
            if r is not None: return 'loc'
            if t.startswith('Arabica::') and '<' not in t:   # enum
                return 'int'
            if t.startswith('std::_Ios') or t == 'std::codecvt_base::result' or t.endswith('::result') or t.endswith('::Result'): return 'int'
        raise Unsupported('type ' + t)
    def wty_safe(self, t):
        try: return self.wty(t)
        except Unsupported: return '?'
    def wty_is_ptr(self, t):
        t = noref(t); h = head(t)
        return t.endswith('*') or h in ('boost::shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'std::auto_ptr') or h in self.handle_classes
    def float_lit(self, v):
        from decimal import Decimal
        d = format(Decimal(float(v)), 'f')   # exact: every double is a decimal
        return '(fl_lit %s)' % (d if '.' in d else d + '.0')
    def catchable(self, t):
        if t == '...': return list(self.exceptions)
        n = head(noref(t)).split('::')[-1]
        out = [x for x in self.exceptions if x == n or n in self.exc_bases.get(x, ())]
        if not out: raise Unsupported('catch ' + t)
        return out
    def itelem(self, t):
        h = head(t)
        if h == '__gnu_cxx::__normal_iterator':
            c = strip_cv(targs(t)[1])
            return self.elemcpp(c)
        if h == 'std::_Deque_iterator': return targs(t)[0]
        raise Unsupported('iterator type ' + t)
    def elemcpp(self, c):
        h = head(c)
        if h in ('std::basic_string', 'std::__cxx11::basic_string', 'std::vector', 'std::deque'): return targs(c)[0]
        raise Unsupported('container ' + c)
    def elem(self, c): return self.wty(self.elemcpp(c))
    def short(self, q):
        return q.split('::')[-1]
    def recname(self, t):
        return self.poly_records[head(t)][0](t) if head(t) in self.poly_records else 'r_' + self.short(head(t))
    def recfield(self, q):
        p = q.split('::'); return lcf(p[-2] + "_" + p[-1])
    def recdecl(self, t):
        if head(t) in self.poly_records: return self.poly_records[head(t)][1]
        r = self.records.get(t)
        if r is None: raise Unsupported('no record ' + t)
        fs = []
        for b in r['bases']:
            if b in self.records and self.records[b]['fields']: raise Unsupported('value class with base fields ' + t)
        for f in r['fields']:
            fs.append('%s_%s : %s' % (lcf(self.short(r['q'])), f['n'], self.wty(f['t'])))
        return 'type %s = { %s }' % (self.recname(t), '; '.join(fs))
    def default(self, t):
        t = noref(t); w = self.wty(t)
        if w == 'bool': return 'false'
        if w in ('int', 'loc'): return '0'
        if w == 'str' or w.startswith('(seq'): return 'empty'
        if w.startswith('(mp'): return 'mp_empty'
        if w.startswith('(mmp'): return 'mmp_empty'
        if w.startswith('(st'): return 'st_empty'
        if w.startswith('r_'):
            r = self.records[t]
            if not r['fields']: return '()'
            return '{ %s }' % '; '.join('%s_%s = %s' % (lcf(self.short(r['q'])), f['n'], self.default(f['t'])) for f in r['fields'])
        if head(t) == 'std::pair':
            a = targs(t); return '(%s, %s)' % (self.default(a[0]), self.default(a[1]))
        raise Unsupported('default value of ' + t)

def table_cells(e, dims):
    e = uncast(e)
    if not dims:
        if e['k'] in ('ImplicitValueInitExpr',): return 0
        if 'cv' in e: return int(e['cv'])
        return int(e['v'])
    cs = [table_cells(x, dims[1:]) for x in e['c']] if e['k'] == 'InitListExpr' else []
    while len(cs) < dims[0]: cs.append([0] * dims[1] if len(dims) > 1 else 0)
    return cs

class Contract:
    def __init__(self, q, name, params, requires=(), ensures=(), raises=(), writes=(), loops=(), ghost=None,
                 sig=None, cls=None, variant=None, trusted=False, ret=None, prove=True, uses=(), nparams=None,
                 hints=None, prelude='', pure=False, opaque=(), diverges=False, decls='', noinline=(), split=True, locals=None,
                 reads=(), sigtext=None, virt=None, fine=False, targs=None):
        self.targs = targs
        self.fine = fine
        self.virt = virt; self.allwrites = None
        self.q = q; self.name = name; self.params = list(params); self.requires = list(requires)
        self.ensures = list(ensures); self.raises = list(raises); self.writes = list(writes); self.loops = list(loops)
        self.ghost = ghost or {}; self.sig = sig; self.cls = cls; self.variant = variant; self.trusted = trusted
        self.ret = ret; self.prove = prove; self.uses = list(uses); self.pure = pure; self.decls = decls
        self.diverges = diverges; self.prelude = prelude; self.locals = locals or {}; self.reads = reads
        self.nparams = nparams; self.sigtext = sigtext
    def matches(self, fn):
        if fn['q'] != self.q: return False
        if self.sig and not re.search(self.sig, fn['sig']): return False
        if self.cls and not re.search(self.cls, fn.get('cls', '')): return False
        if self.targs and not re.search(self.targs, '|'.join(fn.get('targs', []))): return False
        if self.nparams is not None and len(fn['params']) != self.nparams: return False
        return True

class Loop:
    def __init__(self, inv=(), var=None, ghost_pre='', body_start='', body_end='', after=''):
        self.inv = list(inv); self.var = var; self.ghost_pre = ghost_pre
        self.body_start = body_start; self.body_end = body_end; self.after = after

FUNCTORS = {'std::equal_to': '==', 'std::not_equal_to': '!=', 'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/'}
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')

def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)): yield from walk(v)
    elif isinstance(n, list):
        for v in n: yield from walk(v)

def exits(s):
    """statement never completes normally"""
    if s is None: return False
    k = s['k']
    if k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr'): return True
    if k == 'CompoundStmt': return any(exits(x) for x in s['c'])
    if k == 'IfStmt': return s['c'][2] is not None and exits(s['c'][1]) and exits(s['c'][2])
    return False

def has_return(s):
    return any(n.get('k') == 'ReturnStmt' for n in walk(s))

def uncast(e):
    while e.get('k') in ('ImplicitCastExpr', 'ExplicitCastExpr'): e = e['c'][0]
    return e

class Tr:
    def __init__(self, unit, fn, contract):
        self.u = unit; self.fn = fn; self.c = contract
        self.vars = {}
        self.used = set()
        self.cnt = 0
        self.loopno = 0
        self.exns = set()
        self.used_contracts = set()
        self.inlined = []
        self.retstack = []   # return handling
        self.loopstack = []
        self.thisstack = []
        self.inl = []
        self.iterwrite = any(n.get('k') == 'BinaryOperator' and n['op'] == '=' and n['c'][0].get('k') == 'CXXOperatorCallExpr' and n['c'][0]['op'] == '*'
                             and uncast(n['c'][0]['args'][0]).get('k') == 'CXXOperatorCallExpr' for n in walk(fn['body']))
        self.localnames = {}

    # ---------- names
    def fresh(self, p='t'):
        self.cnt += 1
        return '%s_%d' % (p, self.cnt)
    def lname(self, n):
        base = re.sub(r'[^A-Za-z0-9_]', '_', n) or 'anon'
        if not re.match(r'[a-z]', base): base = 'v' + ('' if base.startswith('_') else '_') + base
        if base in KEYWORDS: base += '_v'
        b = base; i = 1
        while b in self.used:
            i += 1; b = '%s_%d' % (base, i)
        self.used.add(b)
        return b

    # ---------- contract text: local names -> values
    def ctext(self, t):
        def sub(m):
            n = m.group(0)
            v = self.localnames.get(n)
            if v is None: return n
            if v.kind == 'ref': return '!' + v.name
            if v.kind == 'alias': return '(' + self.read(v.lv, logic=True).s + ')'
            return v.name
        return re.sub(r"(?<![A-Za-z0-9_.'])[a-z_][A-Za-z0-9_']*", sub, t)

    # ---------- reading and writing lvalues
    def read(self, lv, logic=False):
        b = lv.base
        if b[0] == 'local': s = '!' + b[1]
        elif b[0] == 'imm': s = b[1]
        elif b[0] == 'field': s = '(!%s %s)' % (b[1], b[2])
        elif b[0] == 'val': s = b[1]
        elif b[0] == 'iterel': s = '%s.it_c[%s.it_p]' % (atom(b[1]), atom(b[1]))
        elif b[0] == 'mem': s = ('(mem_get_%s %s)' if not logic else '(!mem_%s %s)') % (b[1], atom(b[2]))
        else: raise Unsupported('read base %s' % (b,))
        for st in lv.path: s = self.readstep(s, st, logic)
        return Ex(s)
    def readstep(self, s, st, logic=False):
        k = st[0]
        a = atom(s)
        if k == 'rec': return '%s.%s' % (a, st[1])
        if k == 'idx': return '%s[%s]' % (a, st[1])
        if k == 'mapget': return '(mp_get %s %s)' % (a, atom(st[1]))
        if k == 'fst': return '(let (z_1, _) = %s in z_1)' % s
        if k == 'snd': return '(let (_, z_2) = %s in z_2)' % s
        raise Unsupported('step ' + k)
    def write(self, lv, v):
        b = lv.base
        # nested functional update
        def upd(cur, path, v):
            if not path: return v
            st = path[0]
            if st[0] == 'rec':
                inner = upd('%s.%s' % (atom(cur), st[1]), path[1:], v)
                return '{ %s with %s = %s }' % (atom(cur), st[1], inner)
            if st[0] == 'idx':
                inner = upd('%s[%s]' % (atom(cur), st[1]), path[1:], v)
                return '(sq_set %s %s %s)' % (atom(cur), atom(st[1]), atom(inner))
            if st[0] == 'mapget':
                inner = upd('(mp_get %s %s)' % (atom(cur), atom(st[1])), path[1:], v)
                return '(mp_set %s %s %s)' % (atom(cur), atom(st[1]), atom(inner))
            raise Unsupported('write step ' + st[0])
        if b[0] == 'iterel':
            c = b[2]; it = atom(b[1])
            cur = self.read(c).s
            el = '%s[%s.it_p]' % (atom(cur), it)
            # the other iterators into the container see the new element: their snapshots are brought up to date
            sync = ''
            if self.iterwrite:
                seen = set()
                for w in self.vars.values():
                    if w.cont is not None and w.kind == 'ref' and w.name not in seen and (w.cont.base, w.cont.path) == (c.base, c.path):
                        seen.add(w.name); sync += '; %s := { !%s with it_c = %s }' % (w.name, w.name, self.read(c).s)
            return '(assert { %s.it_c = %s }; %s%s)' % (it, self.read(c, logic=True).s, self.write(c, '(sq_set %s %s.it_p %s)' % (atom(cur), it, atom(upd(el, lv.path, v)))), sync)
        if b[0] == 'local':
            return '%s := %s' % (b[1], upd('!' + b[1], lv.path, v))
        if b[0] == 'field':
            return '%s := mset !%s %s %s' % (b[1], b[1], atom(b[2]), atom(upd('(!%s %s)' % (b[1], b[2]), lv.path, v)))
        if b[0] == 'mem':
            if lv.path: raise Unsupported('mem path')
            return 'mem_set_%s %s %s' % (b[1], atom(b[2]), atom(v))
        raise Unsupported('write to %s' % (b,))

    # ---------- sequencing helper
    def seq(self, exs, build):
        """evaluate exs left to right; build(list of strings) -> string"""
        n = len(exs)
        lasteff = max([i for i, e in enumerate(exs) if e.eff], default=-1)
        if lasteff < 0 or n == 1:
            return Ex(build([e.s for e in exs]), any(e.eff for e in exs))
        pre = ''; names = []
        for i, e in enumerate(exs):
            if i <= lasteff and not re.fullmatch(r'-?[0-9]+|true|false', e.s):
                t = self.fresh(); pre += 'let %s = %s in ' % (t, e.s); names.append(t)
            else: names.append(e.s)
        return Ex('(' + pre + build(names) + ')', True)

    # ---------- lvalues
    def thislv(self):
        return self.thisstack[-1]
    def lv(self, e):
        """returns (prefix, LV) where prefix is a list of 'let ... in' binding strings with effects/evaluated indexes"""
        k = e['k']
        if k == 'DeclRefExpr':
            if e.get('dk') == 'EnumConstant': return [], LV(('val', e['cv']), (), e['t'])
            v = self.vars.get(e.get('id'))
            if v is None:
                return [], self.globalref(e)
            if v.kind == 'ref': return [], LV(('local', v.name), (), v.ty)
            if v.kind == 'imm': return [], LV(('imm', v.name), (), v.ty)
            if v.kind == 'alias': return [], v.lv
            raise Unsupported('var kind ' + v.kind)
        if k == 'MemberExpr':
            return self.memberlv(e)
        if k == 'CXXThisExpr':
            raise Unsupported('this as lvalue')
        if k == 'UnaryOperator' and e['op'] == '*':
            return self.dereflv(e['c'][0])
        if k == 'UnaryOperator' and e['op'] in ('++', '--') and not e.get('post'):
            p, l = self.lv(e['c'][0])
            x = self.incdec(e)
            return p + ['%s;' % x.s], l
        if k in ('BinaryOperator', 'CompoundAssignOperator') and e['op'] in ASSIGN:
            x = self.expr(e)
            p, l = self.lv(e['c'][0])
            return ['%s;' % x.s] + p, l
        if k in ('ImplicitCastExpr', 'ExplicitCastExpr') and e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.lv(e['c'][0])
        if k == 'ArraySubscriptExpr':
            return self.arraylv(e)
        if k == 'CXXOperatorCallExpr':
            return self.oplv(e)
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            return self.calllv(e)
        if k == 'ConditionalOperator':
            x = self.expr_cond(e); return [], LV(('val', x.s), (), e['t'])
        if k == 'CXXConstructExpr' or k == 'StringLiteral':
            x = self.expr(e)
            t = self.fresh()
            return ['let %s = %s in' % (t, x.s)], LV(('imm', t), (), e['t'])
        if not e.get('lv'):
            x = self.expr(e)
            if x.eff:
                t = self.fresh(); return ['let %s = %s in' % (t, x.s)], LV(('imm', t), (), e['t'])
            return [], LV(('val', x.s), (), e['t'])
        raise Unsupported('lvalue ' + k + ' line %s' % e.get('l'))
    def withpre(self, pre, ex):
        if not pre: return ex
        return Ex('(' + ' '.join(pre) + ' ' + ex.s + ')', True)
    def globalref(self, e):
        q = e.get('q', '')
        for rx, f in self.u.builtins:
            if re.fullmatch(rx, 'global:' + q):
                return LV(('val', f), (), e['t'])
        if q in self.u.globals_:
            return LV(('val', self.u.globals_[q]), (), e['t'])
        if 'ginit' in e and self.u.wty(e['t']) in ('int', 'bool', 'fl', 'str'):
            return LV(('val', self.expr(e['ginit']).s), (), e['t'])
        raise Unsupported('global ' + q)
    def isval(self, t):
        """a type whose objects are WhyML values (not heap locations)"""
        w = self.u.wty(t)
        return w != 'loc'
    def objloc(self, e, arrow):
        """location of the object denoted by expression e (pointer if arrow)"""
        if arrow: return self.expr(e)
        # object lvalue of heap class
        if e['k'] == 'UnaryOperator' and e['op'] == '*': return self.expr(e['c'][0])
        if e['k'] in ('ImplicitCastExpr', 'ExplicitCastExpr') and e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.objloc(e['c'][0], False)
        if e.get('lv'):
            p, l = self.lv(e)
            return self.withpre(p, self.read(l))
        return self.expr(e)
    def fieldmap(self, q, t):
        p = q.split('::')
        n = lcf('%s_%s' % (p[-2], p[-1]))
        self.u.fieldtypes.setdefault(n, None)
        if self.u.fieldtypes[n] is None: self.u.fieldtypes[n] = self.u.wty(t)
        return n
    def isthis(self, e):
        while e['k'] in ('ImplicitCastExpr', 'ExplicitCastExpr') and e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'): e = e['c'][0]
        return e['k'] == 'CXXThisExpr'
    def memberlv(self, e):
        b = e['c'][0]
        if e['dk'] not in ('Field',):
            if e['dk'] == 'Var': return [], self.globalref(e)
            raise Unsupported('member ' + e['q'])
        q = e['q']
        # std::pair through map iterator or pair values
        if q in ('std::pair::first', 'std::pair::second'):
            st = ('fst',) if q.endswith('first') else ('snd',)
            if e.get('arrow') and b['k'] == 'CXXOperatorCallExpr' and b['op'] == '->':
                return self.iterfield(b['args'][0], st, e['t'])
            p, l = self.lv(b)
            return p, l.plus(st, e['t'])
        if self.isthis(b):
            th = self.thislv()
            if isinstance(th, LV):
                return [], th.plus(('rec', self.u.recfield(q)), e['t'])
            return [], self.fieldlv(q, th, e['t'])
        bt = noref(b['t'])
        if e.get('arrow'):
            if b['k'] == 'CXXOperatorCallExpr' and b['op'] == '->':
                # iterator or smart pointer
                it = noref(b['args'][0]['t'])
                if self.u.wty(it).startswith('(iter') or self.u.wty(it).startswith('(riter'):
                    p, l = self.iterderef(b['args'][0])
                    if self.isval(self.pointee(bt)):
                        return p, l.plus(('rec', self.u.recfield(q)), e['t'])
                    x = self.read(l)
                    return p, self.fieldlv(q, x.s, e['t'])
                x = self.expr(b['args'][0])
                return self.fieldacc(q, x, e['t'])
            cls = self.pointee(bt)
            if head(cls) in self.u.value_classes:
                raise Unsupported('pointer to value class ' + cls)
            x = self.expr(b)
            return self.fieldacc(q, x, e['t'])
        if head(bt) in self.u.value_classes:
            p, l = self.lv(b)
            return p, l.plus(('rec', self.u.recfield(q)), e['t'])
        x = self.objloc(b, False)
        return self.fieldacc(q, x, e['t'])
    def pointee(self, t):
        t = noref(t)
        if t.endswith('*'): return strip_cv(t[:-1])
        return t
    def fieldacc(self, q, x, t):
        if x.eff or not re.fullmatch(r'[a-z_A-Z0-9\']+', x.s):
            tmp = self.fresh()
            return ['let %s = nonnull (%s) in' % (tmp, x.s)], self.fieldlv(q, tmp, t)
        return ['nonnull_ %s;' % x.s], self.fieldlv(q, x.s, t)
    def fieldlv(self, q, locatom, t):
        if not self.isval(t) and not noref(t).endswith('*') and head(noref(t)) not in self.u.handle_classes and not self.u.wty_is_ptr(t):
            # embedded heap object: sub-location
            p = q.split('::')
            return LV(('val', '(sub_%s_%s %s)' % (p[-2], p[-1], locatom)), (), t)
        return LV(('field', self.fieldmap(q, t), locatom), (), t)
    def iterderef(self, ie):
        """deref of an iterator expression -> LV of element (read only)"""
        x = self.expr(ie)
        w = self.u.wty(ie['t'])
        if w.startswith('(mmit'): f = 'mmi_get'
        else: f = {'(i': 'it_get', '(r': 'rit_get', '(m': 'mi_get', '(s': 'si_get'}[w[:2]]
        b = ie
        while b['k'] in ('ImplicitCastExpr', 'ExplicitCastExpr'): b = b['c'][0]
        if f == 'it_get' and b['k'] == 'CXXOperatorCallExpr' and b['op'] == '++' and b['args'][0]['k'] == 'DeclRefExpr' and self.vars.get(b['args'][0].get('id')) is not None and self.vars[b['args'][0]['id']].cont is not None:
            t = self.fresh('it')
            return ['let %s = %s in let _ = %s %s in' % (t, x.s, f, t)], LV(('iterel', t, self.vars[b['args'][0]['id']].cont), (), '')
        if f == 'it_get' and b['k'] == 'CXXOperatorCallExpr' and b['op'] == '++' and len(b['args']) == 2 and False: pass
        if f == 'it_get' and b['k'] == 'DeclRefExpr' and self.vars.get(b.get('id')) is not None and self.vars[b['id']].cont is not None:
            v = self.vars[b['id']]
            return ['let _ = %s %s in' % (f, atom(x.s))], LV(('iterel', x.s, v.cont), (), '')
        t = self.fresh('e')
        return ['let %s = %s %s in' % (t, f, atom(x.s))], LV(('imm', t), (), '')
    def iterfield(self, ie, st, t):
        p, l = self.iterderef(ie)
        return p, l.plus(st, t)
    def dereflv(self, pe):
        t = noref(pe['t'])
        if t.endswith('*'):
            inner = strip_cv(t[:-1])
            if self.isthis(pe) and isinstance(self.thislv(), LV): return [], self.thislv()
            if inner in INT:
                x = self.expr(pe)
                if x.eff:
                    tmp = self.fresh('a'); return ['let %s = %s in' % (tmp, x.s)], LV(('mem', self.memkind(inner), tmp), (), inner)
                return [], LV(('mem', self.memkind(inner), x.s), (), inner)
            x = self.expr(pe)
            return [], LV(('val', x.s), (), inner)
        raise Unsupported('deref of ' + t)
    def memkind(self, t):
        r = INT[t]
        return TAG[t]
    def arraylv(self, e):
        b, i = e['c']
        bt = noref(b['t'])
        idx = [i]; base = b
        while True:
            base = uncast(base)
            if base['k'] != 'ArraySubscriptExpr': break
            idx.insert(0, base['c'][1]); base = base['c'][0]
        if base.get('k') == 'DeclRefExpr' and base.get('ginit', {}).get('k') == 'InitListExpr':
            dims = [int(x) for x in re.findall(r'\[(\d+)\]', noref(base['t']))]
            if len(dims) == len(idx) and self.u.wty(re.sub(r'\[.*', '', noref(base['t'])).strip()) == 'int':
                f = self.u.const_table(base['q'], dims, base['ginit'])
                xs = [self.expr(j) for j in idx]
                r = self.seq(xs, lambda v: '(get_%s %s)' % (f, ' '.join(atom(x) for x in v)))
                t = self.fresh('c')
                return ['let %s = %s in' % (t, r.s)], LV(('imm', t), (), e['t'])
        # constant global array: base decays
        base = b
        while base['k'] == 'ImplicitCastExpr': base = base['c'][0]
        if base['k'] == 'DeclRefExpr' and base.get('global') or base['k'] == 'MemberExpr' and base['dk'] == 'Var':
            q = base['q']
            if q in self.u.globals_:
                x = self.expr(i)
                t = self.fresh('ix')
                return ['let %s = %s in' % (t, x.s)], LV(('val', self.u.globals_[q]), (('idx', t),), e['t'])
            raise Unsupported('array ' + q)
        if base['k'] == 'DeclRefExpr' and base.get('id') in self.vars and re.search(r'\[\d+\]$', self.vars[base['id']].ty):
            p, l = self.lv(base)
            x = self.expr(i); t = self.fresh('ix')
            return p + ['let %s = %s in' % (t, x.s)], l.plus(('idx', t), e['t'])
        if bt.endswith('*') and strip_cv(bt[:-1]) in INT:
            inner = strip_cv(bt[:-1])
            x = self.seq([self.expr(b), self.expr(i)], lambda a: '(%s + %s)' % tuple(map(atom, a)))
            t = self.fresh('a')
            return ['let %s = %s in' % (t, x.s)], LV(('mem', self.memkind(inner), t), (), inner)
        raise Unsupported('array subscript on ' + bt)
    def bindidx(self, x, p):
        if re.fullmatch(r"[a-z0-9_']+", x.s): return x.s, p
        t = self.fresh('ix'); return t, p + ['let %s = %s in' % (t, x.s)]
    def oplv(self, e):
        op = e['op']; a = e['args']
        t0 = noref(a[0]['t'])
        w = self.u.wty(t0)
        if op == '*':
            if w[:2] in ('(i', '(r', '(m', '(s') and w != '(seq' and not w.startswith('(seq') and not w.startswith('(st') and not w.startswith('(mp'):
                return self.iterderef(a[0])
            if w == 'loc':
                x = self.expr(a[0]); return [], LV(('val', x.s), (), e['t'])
        if op == '[]':
            if w == 'str' or w.startswith('(seq'):
                p, l = self.lv(a[0]); i = self.expr(a[1])
                ix, p = self.bindidx(i, p)
                return p, l.plus(('idx', ix), e['t'])
            if w.startswith('(mp'):
                p, l = self.lv(a[0]); i = self.expr(a[1])
                ix, p = self.bindidx(i, p)
                vt = targs(t0)[1]
                cur = self.read(l).s
                p = p + ['(if not (mp_mem %s %s) then %s);' % (atom(cur), ix, self.write(l, 'mp_set %s %s %s' % (atom(cur), ix, atom(self.u.default(vt)))))]
                return p, l.plus(('mapget', ix), e['t'])
        if op in ('=', '+=', '++', '--', '-='):
            if op in ('++', '--') and len(a) == 2: raise Unsupported('postfix as lvalue')
            x = self.expr(e)
            p, l = self.lv(a[0])
            return [x.s + ';'] + p, l
        return self.calllv(e)
    def calllv(self, e):
        fn = e.get('fn')
        if fn is None: raise Unsupported('indirect call')
        q = fn['q']
        if q == 'std::_Vector_base' : pass
        m = re.fullmatch(r'std::(vector|deque|stack|list|basic_string)::(back|front|top|at|operator\[\])', q)
        if m:
            p, l = self.lv(e['obj'])
            cur = atom(self.read(l).s)
            w = m.group(2)
            if w in ('back', 'top'): ix = '(length %s - 1)' % cur
            elif w == 'front': ix = '0'
            else: ix = self.expr(e['args'][0]).s
            t = self.fresh('ix')
            return p + ['let %s = %s in' % (t, ix)], l.plus(('idx', t), e['t'])
        if re.fullmatch(r'std::basic_string::(append|assign|operator\+=)', q) and 'obj' in e:
            x = self.expr(e); p, l = self.lv(e['obj'])   # returns *this
            return ['let _ = %s in' % x.s] + (p if e['obj']['k'] in ('DeclRefExpr', 'MemberExpr') else []), l
        # functions in scope returning references: inline to an lvalue when the body is 'return lv;'
        c = self.findcontract(fn)
        if c is None and fn.get('ours') and fn['id'] in self.u.funcs and is_ref(fn['ret']):
            f = self.u.funcs[fn['id']]
            st = f['body']['c']
            if len(st) == 1 and st[0]['k'] == 'ReturnStmt' and not fn.get('virtual'):
                return self.inline_lv(e, f)
        x = self.expr(e)
        t = self.fresh()
        return ['let %s = %s in' % (t, x.s)], LV(('imm', t), (), e['t'])
    def inline_lv(self, e, f):
        save = dict(self.vars); sl = dict(self.localnames)
        pre = self.bindargs(e, f)
        try:
            p, l = self.lv(f['body']['c'][0]['c'][0])
        finally:
            self.endcall(e, f)
        return pre + p, l

    # ---------- calls
    def findcontract(self, fn, e=None):
        v = bool(fn.get('virtual')) and not (e or {}).get('qualified')
        for c in self.u.contracts_by_q.get(fn['q'], []):
            if c.matches(self.u.funcs.get(fn.get('id'), fn)) and (c.virt is None or c.virt == v): return c
        return None
    def methodlv_or_loc(self, e):
        """object of a member call: LV for value objects, Ex for locations"""
        o = e['obj']
        ot = noref(o['t'])
        if self.isthis(o):
            return self.thislv()
        if e.get('arrow'):
            if o['k'] == 'CXXOperatorCallExpr' and o['op'] == '->':
                w = self.u.wty(o['args'][0]['t'])
                if w.startswith('(iter') or w.startswith('(riter'):
                    return self.iterderef(o['args'][0])
                return self.expr(o['args'][0])
            if head(self.pointee(ot)) in self.u.value_classes:
                raise Unsupported('pointer to value class')
            return self.expr(o)
        if self.isval(ot):
            return self.lv(o)
        return self.objloc(o, False)
    def bindargs(self, e, f):
        """bind parameters of inlined function; returns prefix list"""
        if f['q'] in self.inl: raise Unsupported('recursive inline ' + f['q'])
        if len(self.inl) > 12: raise Unsupported('inline depth')
        pre = []
        newthis = None
        args = e.get('args', [])
        if e['k'] == 'CXXOperatorCallExpr' and 'cls' in f and not f.get('static'):
            objx = args[0]; args = args[1:]
            ot = noref(objx['t'])
            if self.isval(ot):
                p, l = self.lv(objx); pre += p; newthis = l
            else:
                x = self.objloc(objx, False); t = self.fresh('self'); pre.append('let %s = %s in' % (t, x.s)); newthis = t
        elif 'obj' in e:
            o = self.methodlv_or_loc(e)
            if isinstance(o, tuple):
                pre += o[0]; newthis = o[1]
                if not self.isval(f['cls']):
                    newthis = self.read(newthis).s
            elif isinstance(o, LV): newthis = o
            elif isinstance(o, str): newthis = o
            else:
                t = self.fresh('self'); pre.append('let %s = %s in' % (t, o.s)); newthis = t
        binds = {}
        for pd, a in zip(f['pdecls'], args):
            binds[pd['id']] = self.bindparam(pd, a, f, pre)
        for pid, (v, n) in binds.items():
            self.vars[pid] = v
        self.thisstack.append(newthis)
        self.inl.append(f['q'])
        if f['q'] not in self.inlined: self.inlined.append(f['q'])
        return pre
    def bindparam(self, pd, a, f, pre):
        t = pd['t']
        name = self.lname(pd['n'] or 'p')
        w = self.u.wty(t)
        if is_ref(t) and w != 'loc':
            if is_const_ref(t) or t.strip().endswith('&&'):
                if a.get('lv'):
                    p, l = self.lv(a); pre += p
                    # a const reference is read through: snapshot is only sound if the referent is not written in the callee
                    if l.base[0] in ('local', 'field', 'mem'):
                        return Var('alias', name, t, l), name
                    pre.append('let %s = %s in' % (name, self.read(l).s))
                    return Var('imm', name, t), name
                x = self.expr(a)
                pre.append('let %s = %s in' % (name, x.s))
                return Var('imm', name, t), name
            p, l = self.lv(a); pre += p
            return Var('alias', name, t, l), name
        if is_ref(t) and w == 'loc' and (noref(t).endswith('*') or self.u.wty_is_ptr(t)) and not is_const_ref(t):
            p, l = self.lv(a); pre += p
            return Var('alias', name, t, l), name
        if w == 'loc' and is_ref(t) and not self.u.wty_is_ptr(t) and not noref(t).endswith('*'):
            x = self.objloc(a, False)
        else:
            x = self.expr(a)
        cont = self.itercont(a) if w.startswith('(iter') else None
        if self.mutated(pd['id'], f['body']):
            pre.append('let %s = ref (%s) in' % (name, x.s))
            v = Var('ref', name, t); v.cont = cont
            return v, name
        pre.append('let %s = %s in' % (name, x.s))
        v = Var('imm', name, t); v.cont = cont
        return v, name
    def endcall(self, e, f):
        self.thisstack.pop(); self.inl.pop()
    def inline(self, e, f):
        pre = self.bindargs(e, f)
        try:
            s = self.fbody(f)
        finally:
            self.endcall(e, f)
        return Ex('(' + ' '.join(pre) + ' ' + s + ')', True)
    def fbody(self, f):
        ret = self.u.wty(f['ret'])
        st = f['body']
        if st['k'] == 'CXXTryStmt': raise Unsupported('function try')
        # tail form without exceptions when returns are all in tail position
        self.retstack.append({'mode': 'tail', 'ret': f['ret'], 'name': None, 'used': False})
        lb = self.loopstack; self.loopstack = []
        try:
            rname = self.fresh('Ret')
            rname = rname[0].upper() + rname[1:]
            self.retstack[-1]['name'] = rname
            body = self.tail([st], unit=(ret == 'unit'))
            if self.retstack[-1]['used']:
                if ret == 'unit':
                    body = '(exception %s in try %s with %s -> () end)' % (rname, body, rname)
                else:
                    body = '(exception %s %s in try %s with %s ret_v -> ret_v end)' % (rname, ret, body, rname)
        finally:
            self.retstack.pop(); self.loopstack = lb
        return body
    def doret(self, val):
        r = self.retstack[-1]
        r['used'] = True
        return 'raise %s' % r['name'] if val is None else 'raise (%s %s)' % (r['name'], atom(val))

    def call(self, e):
        fn = e.get('fn')
        if fn is None and 'calleeExpr' in e and self.u.fnptrs:
            ce = e['calleeExpr']
            while ce['k'] in ('ParenExpr', 'ImplicitCastExpr'): ce = ce['c'][0]
            o = None
            if ce['k'] == 'BinaryOperator' and ce['op'] in ('->*', '.*'): o, ce = ce['c']
            xs = ([self.objloc(o, True)] if o is not None else []) + [self.rd(ce) if ce.get('lv') else self.expr(ce)] + [self.rd(a) if a.get('lv') else self.expr(a) for a in e['args']]
            n = 1 if o is not None else 0
            def split(v):
                f = v[n]; a = v[:n] + v[n + 1:]; r = '(any_ret_ ())' if False else None
                cands = [(k, c) for k, c in self.u.fnptrs.values()]
                for k, c in reversed(cands):
                    self.used_contracts.add(c)
                    args = a if not (n == 0) else self.u.fnptr_this.get(c, []) + a
                    call = '%s %s' % (c, ' '.join(atom(x) for x in args))
                    r = '(%s)' % call if r is None else '(if %s = %d then %s else %s)' % (atom(f), k, call, r)
                return r
            cands = self.u.fnptrs
            sel = self.u.fnptr_sel(e) if self.u.fnptr_sel else None
            if sel:
                full = self.u.fnptrs; self.u.fnptrs = dict((q, full[q]) for q in full if q in sel)
                try: r = self.seq(xs, split)
                finally: self.u.fnptrs = full
            else: r = self.seq(xs, split)
            r.eff = True
            return r
        if fn is None:
            raise Unsupported('indirect call line %s' % e.get('l'))
        q = fn['q']
        for rx, f in self.u.builtins:
            if not isinstance(f, str) and re.fullmatch(rx, q):
                r = f(self, e)
                if r is not None: return r
        c = self.findcontract(fn, e)
        if c is not None:
            return self.contractcall(e, fn, c)
        if q.endswith('_adaptor::construct_from_utf8') and len(e['args']) == 1 and self.u.wty_safe(e['t']) == 'str':
            x = e['args'][0]   # of a literal: the literal (its text is the one-line body, whose null test cannot fail)
            while x['k'] == 'ImplicitCastExpr': x = x['c'][0]
            if x['k'] == 'StringLiteral' and all(ord(ch) < 128 for ch in str(x['v'])): return Ex(self.strlit(x['v']))
            while x['k'] in ('ImplicitCastExpr', 'ParenExpr'): x = x['c'][0]
            if x['k'] == 'ConditionalOperator':
                import stdmodel
                lits = [x['c'][1], x['c'][2]]
                for n in (0, 1):
                    while lits[n]['k'] in ('ImplicitCastExpr', 'ParenExpr'): lits[n] = lits[n]['c'][0]
                if all(y['k'] == 'StringLiteral' and all(ord(ch) < 128 for ch in str(y['v'])) for y in lits):
                    c = self.rd(x['c'][0]); return Ex('(if %s then %s else %s)' % (c.s, self.strlit(lits[0]['v']), self.strlit(lits[1]['v'])), c.eff)
        if fn.get('ours') and fn['id'] in self.u.funcs:
            if fn.get('virtual') and not e.get('qualified') and not fn.get('static') and q not in self.u.devirtual:
                raise Unsupported('virtual call without contract ' + q)
            return self.inline(e, self.u.funcs[fn['id']])
        import stdmodel
        r = stdmodel.call(self, e, q)
        if r is not None: return r
        raise Unsupported('call to %s %s line %s' % (q, fn['sig'], e.get('l')))
    def args_of(self, e):
        a = list(e.get('args', []))
        return a
    def contractcall(self, e, fn, c):
        self.used_contracts.add(c.name)
        self.u.callsig[c.name] = fn
        exs = []; post = []; pre = []
        args = e.get('args', [])
        if 'cls' in fn and not fn.get('static') and e['k'] != 'CXXConstructExpr':
            if e['k'] == 'CXXOperatorCallExpr':
                o = args[0]; args = args[1:]
                exs.append(self.objval(o))
            else:
                o = self.methodlv_or_loc(e)
                if isinstance(o, tuple):
                    pre += o[0]
                    o = o[1]
                if isinstance(o, LV):
                    if not fn.get('const') and self.isval(fn['cls']):
                        a, p1, p2 = self.refarg(o); pre += p1; post += p2; exs.append(Ex(a))
                    else: exs.append(self.read(o))
                elif isinstance(o, str): exs.append(Ex(o))
                else: exs.append(o)
        for pt, a in zip(fn['params'], args):
            w = self.u.wty(pt)
            if is_ref(pt) and not is_const_ref(pt) and not pt.strip().endswith('&&') and (w != 'loc' or noref(pt).endswith('*')):
                p, l = self.lv(a); pre += p
                s, p1, p2 = self.refarg(l); pre += p1; post += p2
                exs.append(Ex(s))
            elif w == 'loc' and is_ref(pt) and not noref(pt).endswith('*'):
                exs.append(self.objloc(a, False))
            else:
                exs.append(self.expr(a))
        if not exs: r = Ex('%s ()' % c.name, True)
        else: r = self.seq(exs, lambda a: '%s %s' % (c.name, ' '.join(atom(x) for x in a)))
        r = Ex('(' + r.s + ')', True)
        if post:
            t = self.fresh()
            r = Ex('(let %s = %s in %s; %s)' % (t, r.s, '; '.join(post), t), True)
        if pre: r = self.withpre(pre, r)
        if c.pure and not pre and not post: r.eff = any(x.eff for x in exs)
        return r
    def objval(self, o):
        ot = noref(o['t'])
        if self.isthis(o): 
            th = self.thislv()
            return self.read(th) if isinstance(th, LV) else Ex(th)
        if self.isval(ot):
            p, l = self.lv(o); return self.withpre(p, self.read(l))
        return self.objloc(o, False)
    def refarg(self, l):
        if l.base[0] == 'local' and not l.path: return l.base[1], [], []
        t = self.fresh('r')
        return t, ['let %s = ref (%s) in' % (t, self.read(l).s)], [self.write(l, '!' + t)]

    # ---------- expressions
    def const(self, e):
        if 'cv' in e:
            t = noref(e['t'])
            if t == 'bool': return 'true' if e['cv'] not in ('0',) else 'false'
            v = e['cv']
            return '(%s)' % v if v.startswith('-') else v
        return None
    def expr(self, e):
        c = self.const(e)
        if c is not None: return Ex(c)
        k = e['k']
        m = getattr(self, 'x_' + k, None)
        if m is None: raise Unsupported('expr %s line %s' % (k, e.get('l')))
        return m(e)
    def x_IntegerLiteral(self, e): return Ex(e['v'] if not e['v'].startswith('-') else '(%s)' % e['v'])
    def x_CharacterLiteral(self, e): return Ex(e['v'] if not e['v'].startswith('-') else '(%s)' % e['v'])
    def x_CXXBoolLiteralExpr(self, e): return Ex('true' if e['v'] else 'false')
    def x_CXXNullPtrLiteralExpr(self, e): return Ex('0')
    def x_GNUNullExpr(self, e): return Ex('0')
    def x_FloatingLiteral(self, e):
        return Ex(self.u.float_lit(e['v']))
    def x_StringLiteral(self, e):
        return Ex(self.strlit(e['v']))
    def strlit(self, v):
        s = 'empty'
        for c in v: s = '(snoc %s %s)' % (s, c if c >= 0 else '(%d)' % c)
        return s
    def x_CXXThisExpr(self, e):
        th = self.thislv()
        if isinstance(th, LV): raise Unsupported('this pointer of value object')
        return Ex(th)
    def x_DeclRefExpr(self, e):
        if e.get('dk') == 'EnumConstant': return Ex(e['cv'])
        p, l = self.lv(e)
        return self.withpre(p, self.read(l))
    def x_MemberExpr(self, e):
        p, l = self.lv(e)
        return self.withpre(p, self.read(l))
    def x_ArraySubscriptExpr(self, e):
        p, l = self.lv(e); return self.withpre(p, self.read(l))
    def x_ImplicitCastExpr(self, e): return self.cast(e)
    def x_ExplicitCastExpr(self, e): return self.cast(e)
    def cast(self, e):
        ck = e['ck']; s = e['c'][0]; t = noref(e['t'])
        if ck == 'LValueToRValue':
            p, l = self.lv(s); r = self.read(l)
            if t in INT and t != 'bool' and (l.base[0] == 'field' or l.path or s['k'] == 'CXXOperatorCallExpr'):
                r = Ex('(rd_%s %s)' % (TAG[t], atom(r.s)), r.eff)
            return self.withpre(p, r)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'BaseToDerived', 'BitCast', 'ArrayToPointerDecay', 'FloatingCast'):
            return self.expr(s)
        if ck == 'IntegralCast':
            return self.intconv(self.expr(s), noref(s['t']), t)
        if ck == 'IntegralToBoolean':
            x = self.expr(s); return Ex('(%s <> 0)' % atom(x.s), x.eff)
        if ck == 'PointerToBoolean':
            x = self.expr(s); return Ex('(%s <> 0)' % atom(x.s), x.eff)
        if ck == 'NullToPointer': return Ex('0')
        if ck == 'FunctionToPointerDecay':
            x = s
            while x['k'] in ('ParenExpr', 'ImplicitCastExpr'): x = x['c'][0]
            if x['k'] == 'DeclRefExpr' and x.get('fn', x).get('q') in self.u.fnptrs: return Ex(str(self.u.fnptrs[x.get('fn', x)['q']][0]))
            if self.u.fnptrs and x.get('lv') and x['k'] == 'UnaryOperator': return self.expr(x['c'][0])
        if ck == 'IntegralToFloating':
            x = self.expr(s); return Ex('(fl_of_int %s)' % atom(x.s), x.eff)
        if ck == 'FloatingToIntegral':
            x = self.expr(s); return Ex('(fl_to_%s %s)' % (TAG[t], atom(x.s)), x.eff)
        if ck == 'ToVoid':
            x = self.expr(s); return Ex('(let _ = %s in ())' % x.s, x.eff)
        if ck == 'Dynamic':
            x = self.expr(s)
            cls = head(self.pointee(e['t'])).split('::')[-1]
            return Ex('(dyncast_%s %s)' % (cls, atom(x.s)), x.eff)
        raise Unsupported('cast ' + ck + ' line %s' % e.get('l'))
    def intconv(self, x, ft, tt):
        if tt == 'bool': return Ex('(%s <> 0)' % atom(x.s), x.eff)
        if ft == 'bool': return Ex('(if %s then 1 else 0)' % x.s, x.eff)
        if tt not in INT: return x      # enum
        if ft not in INT: return x if x.s.strip('()-').isdigit() else Ex('(rd_%s %s)' % (TAG[tt], atom(x.s)), x.eff)
        if INT[tt][0] <= INT[ft][0] and INT[ft][1] <= INT[tt][1]:
            if ft in ('char', 'signed char', 'unsigned char', 'wchar_t', 'short', 'unsigned short', 'char16_t') and re.fullmatch(r"[!a-zA-Z_0-9.']+|.*\]\)?", x.s) and not x.s.strip('()-').isdigit():
                return Ex('(rd_%s %s)' % (TAG[ft], atom(x.s)), x.eff)
            return x
        m = re.fullmatch(r'\(?(-?\d+)\)?', x.s)
        if m and INT[tt][0] <= int(m.group(1)) <= INT[tt][1]: return x
        return Ex('(conv_%s %s)' % (TAG[tt], atom(x.s)), x.eff)
    def wrap(self, s, t):
        """result of arithmetic in type t"""
        t = noref(t)
        if t in ('int', 'long', 'long long', 'short', 'char', 'signed char', 'wchar_t'): return '(chk_%s (%s))' % (TAG[t], s)
        if t in INT: return '(wrap_%s (%s))' % (TAG[t], s)
        return '(%s)' % s
    def x_UnaryOperator(self, e):
        op = e['op']; s = e['c'][0]; t = noref(e['t'])
        if op == '!':
            x = self.expr(s); return Ex('(not %s)' % atom(x.s), x.eff)
        if op == '-':
            x = self.expr(s)
            if self.u.wty(t) == 'fl': return Ex('(fl_neg %s)' % atom(x.s), x.eff)
            return Ex(self.wrap('- %s' % atom(x.s), t), x.eff)
        if op == '+': return self.expr(s)
        if op == '~':
            x = self.expr(s); return Ex(self.wrap('(- 1) - %s' % atom(x.s), t), x.eff)
        if op in ('++', '--'): return self.incdec(e)
        if op == '*':
            p, l = self.lv(e); return self.withpre(p, self.read(l))
        if op == '&':
            if s['k'] == 'DeclRefExpr' and s.get('fn', s).get('q') in self.u.fnptrs: return Ex(str(self.u.fnptrs[s.get('fn', s)['q']][0]))
            # address of: heap object -> location
            if self.u.wty(s['t']) == 'loc' and not noref(s['t']).endswith('*'): return self.objloc(s, False)
            raise Unsupported('address-of line %s' % e.get('l'))
        raise Unsupported('unary ' + op)
    def incdec(self, e):
        s = e['c'][0]; t = noref(s['t'])
        p, l = self.lv(s)
        d = '+' if e['op'] == '++' else '-'
        cur = self.read(l).s
        if t.endswith('*'): nv = '(%s %s 1)' % (atom(cur), d)
        else: nv = self.wrap('%s %s 1' % (atom(cur), d), t)
        if e.get('post'):
            o = self.fresh('o')
            return Ex('(' + ' '.join(p) + ' let %s = %s in %s; %s)' % (o, cur, self.write(l, nv), o), True)
        return Ex('(' + ' '.join(p) + ' %s; %s)' % (self.write(l, nv), self.read(l).s), True)
    def x_ConditionalOperator(self, e): return self.expr_cond(e)
    def expr_cond(self, e):
        c, a, b = [self.expr(x) for x in e['c']]
        return Ex('(if %s then %s else %s)' % (c.s, a.s, b.s), c.eff or a.eff or b.eff)
    def x_BinaryOperator(self, e):
        op = e['op']; a, b = e['c']
        if op == '=': return self.assign(e, a, lambda: self.expr(b))
        if op in ('&&', '||'):
            x = self.expr(a); y = self.expr(b)
            return Ex('(%s %s %s)' % (atom(x.s), op, atom(y.s)), x.eff or y.eff)
        if op == ',':
            x = self.expr(a); y = self.expr(b)
            return Ex('(let _ = %s in %s)' % (x.s, y.s), True)
        return self.seq([self.expr(a), self.expr(b)],
                        lambda v: self.binop(op, v[0], v[1], noref(a['t']), noref(b['t']), noref(e['t'])))
    def binop(self, op, x, y, ta, tb, t):
        x = atom(x); y = atom(y)
        wa = self.u.wty(ta)
        if wa == 'fl':
            f = {'+': 'fl_add', '-': 'fl_sub', '*': 'fl_mul', '/': 'fl_div', '==': 'fl_eq', '<': 'fl_lt', '<=': 'fl_le',
                 '>': 'fl_gt', '>=': 'fl_ge'}
            if op == '!=': return '(not (fl_eq %s %s))' % (x, y)
            return '(%s %s %s)' % (f[op], x, y)
        if op in ('==', '!='):
            if wa == 'bool': return '(beq %s %s)' % (x, y) if op == '==' else '(not (beq %s %s))' % (x, y)
            return '(%s %s %s)' % (x, '=' if op == '==' else '<>', y)
        if op in ('<', '<=', '>', '>='):
            return '(%s %s %s)' % (x, op, y)
        if op in ('+', '-') and (ta.endswith('*') or tb.endswith('*')):
            return '(%s %s %s)' % (x, op, y)
        if op in ('+', '-', '*'): return self.wrap('%s %s %s' % (x, op, y), t)
        if op == '/': return self.wrap('c_div %s %s' % (x, y), t)
        if op == '%': return self.wrap('c_mod %s %s' % (x, y), t)
        if op in ('&', '|', '^', '<<', '>>'): return self.bitop(op, x, y, t)
        raise Unsupported('binop ' + op)
    def bitop(self, op, x, y, t):
        cy = re.fullmatch(r'\(?(-?\d+)\)?', y); cx = re.fullmatch(r'\(?(-?\d+)\)?', x)
        if op in ('&', '|') and cx and not cy: x, y, cx, cy = y, x, cy, cx
        if op == '>>':
            if cy: return '(div %s %d)' % (x, 2**int(cy.group(1)))
            return '(shr_ %s %s)' % (x, y)
        if op == '<<':
            if cy: return self.wrap('%s * %d' % (x, 2**int(cy.group(1))), t)
            return self.wrap('shl_ %s %s' % (x, y), t)
        if op == '&' and cy:
            v = int(cy.group(1))
            if v < 0:
                v &= (2**32 - 1) if INT.get(t, (0, 2**31))[1] < 2**33 else 2**64-1
                raise Unsupported('negative mask')
            parts = []; b = 0
            while v >> b:
                if (v >> b) & 1:
                    lo = b
                    while (v >> b) & 1: b += 1
                    w = b - lo
                    d = 'div %s %d' % (x, 2**lo) if lo else x
                    p = 'mod (%s) %d' % (d, 2**w)
                    parts.append('(%s) * %d' % (p, 2**lo) if lo else p)
                else: b += 1
            return '(%s)' % (' + '.join('(%s)' % p for p in parts) or '0')
        if op == '&': return '(band_ %s %s)' % (x, y)
        if op == '|':
            return '(bor_ %s %s)' % (x, y)
        raise Unsupported('bit op %s with non constant operand' % op)
    def assign(self, e, a, rhs):
        x = rhs()
        p, l = self.lv(a)
        if l.base[0] in ('val', 'imm'): raise Unsupported('assignment to rvalue line %s' % e.get('l'))
        if x.eff or p:
            t = self.fresh('v')
            return Ex('(let %s = %s in %s %s; %s)' % (t, x.s, ' '.join(p), self.write(l, t), t), True)
        if re.fullmatch(r"[a-z0-9_']+", x.s): t = x.s; return Ex('(%s; %s)' % (self.write(l, t), t), True)
        t = self.fresh('v')
        return Ex('(let %s = %s in %s; %s)' % (t, x.s, self.write(l, t), t), True)
    def x_CompoundAssignOperator(self, e):
        op = e['op'][:-1]; a, b = e['c']
        p, l = self.lv(a)
        cur = self.read(l)
        y = self.expr(b)
        ct = noref(e['ct']); clt = noref(e['clt'])
        at = noref(a['t'])
        def build(v):
            x = v[0]
            if at.endswith('*'): return self.binop(op, x, v[1], at, noref(b['t']), at)
            if self.u.wty(at) != 'fl': x = self.intconv(Ex(x), at, clt).s
            r = self.binop(op, x, v[1], clt, noref(b['t']), ct)
            if self.u.wty(at) != 'fl': r = self.intconv(Ex(r), ct, at).s
            return r
        r = self.seq([cur, y], build)
        t = self.fresh('v')
        return Ex('(%s let %s = %s in %s; %s)' % (' '.join(p), t, r.s, self.write(l, t), t), True)
    def x_CallExpr(self, e): return self.call(e)
    def x_CXXMemberCallExpr(self, e):
        return self.call(e)
    def x_CXXOperatorCallExpr(self, e):
        return self.call(e)
    def x_CXXConstructExpr(self, e):
        t = noref(e['t'])
        import stdmodel
        r = stdmodel.construct(self, e, t)
        if r is not None: return r
        h = head(t)
        if h in self.u.local_new and not e.get('copy'):
            exs = []
            for pt, a in zip(e['fn']['params'], e.get('args', [])): exs.append(self.objloc(a, False) if self.u.wty(pt) == 'loc' and is_ref(pt) else self.expr(a))
            x = self.seq(exs, lambda a: '%s %s' % (self.u.local_new[h], ' '.join(map(atom, a))))
            return Ex('(' + x.s + ')', True)
        if h in self.u.handle_classes:
            if e.get('dflt') or not e['args']: return Ex('0')
            if len(e['args']) == 1: return self.expr(e['args'][0]) if not e['args'][0].get('lv') else self.rd(e['args'][0])
        if h in self.u.value_classes:
            if e.get('copy'):
                a = e['args'][0]
                return self.rd(a)
            return self.ctor_value(e, t)
        if h in FUNCTORS: return Ex('()')
        raise Unsupported('construct ' + t)
    def rd(self, a):
        if a.get('lv'):
            p, l = self.lv(a); return self.withpre(p, self.read(l))
        return self.expr(a)
    def ctor_value(self, e, t):
        fn = e['fn']
        r = self.u.records[t]
        sh = lcf(self.u.short(r['q']))
        if fn['id'] not in self.u.funcs:
            if not e['args']: return Ex(self.u.default(t))
            raise Unsupported('no ctor body ' + fn['q'])
        f = self.u.funcs[fn['id']]
        pre = []
        binds = {}
        for pd, a in zip(f['pdecls'], e['args']):
            binds[pd['id']] = self.bindparam(pd, a, f, pre)
        for pid, (v, n) in binds.items(): self.vars[pid] = v
        vals = {}
        for i in f['inits']:
            if 'field' not in i:
                if i['init']['k'] == 'CXXConstructExpr' and not i['init'].get('args'): continue   # the record has the class's own fields only
                raise Unsupported('base initialiser in value class %s' % i['init'].get('t'))
            vals[i['field']] = self.expr(i['init']).s
        parts = []
        for fl in r['fields']:
            parts.append('%s_%s = %s' % (sh, fl['n'], vals.get(fl['n']) or self.u.default(fl['t'])))
        rec = '{ %s }' % '; '.join(parts) if parts else '()'
        if f['body']['c']:
            s = self.fresh('self')
            self.thisstack.append(LV(('local', s), (), t)); self.inl.append(f['q'])
            try:
                body = self.fbody(f)
            finally:
                self.thisstack.pop(); self.inl.pop()
            return Ex('(%s let %s = ref (%s) in %s; !%s)' % (' '.join(pre), s, rec, body, s), True)
        return Ex('(%s %s)' % (' '.join(pre), rec), bool(pre))
    def x_CXXNewExpr(self, e):
        h = head(noref(e['at'])).split('::')[-1]
        c = self.u.new_contracts.get(h)
        if c is None: raise Unsupported('new ' + e['at'])
        self.used_contracts.add(c.name)
        init = e.get('init')
        args = init.get('args', []) if init else []
        exs = []
        for pt, a in zip(init['fn']['params'] if init else [], args):
            if self.u.wty(pt) == 'loc' and is_ref(pt): exs.append(self.objloc(a, False))
            else: exs.append(self.expr(a))
        if not exs: return Ex('(%s ())' % c.name, True)
        x = self.seq(exs, lambda a: '%s %s' % (c.name, ' '.join(map(atom, a))))
        return Ex('(' + x.s + ')', True)
    def x_CXXDeleteExpr(self, e):
        x = self.expr(e['c'][0])
        return Ex('(delete_ %s)' % atom(x.s), True)
    def x_CXXThrowExpr(self, e):
        return Ex(self.throw(e), True)
    def x_InitListExpr(self, e):
        raise Unsupported('init list')
    def x_CXXScalarValueInitExpr(self, e): return Ex(self.u.default(e['t']))
    def x_ImplicitValueInitExpr(self, e): return Ex(self.u.default(e['t']))
    def throw(self, e):
        s = e['c'][0] if e['c'] else None
        if s is None: raise Unsupported('rethrow')
        t = head(noref(s['t'])).split('::')[-1]
        x = s
        while x['k'] in ('ImplicitCastExpr', 'ExplicitCastExpr') or (x['k'] == 'CXXConstructExpr' and len(x.get('args', [])) == 1 and (x.get('copy') or noref(x['args'][0]['t']) == noref(x['t']))):
            x = x['c'][0] if 'c' in x else x['args'][0]
        ex = self.u.exceptions.get(t)
        if ex is None: raise Unsupported('exception class ' + t)
        self.exns.add(t)
        T = t[0].upper() + t[1:]
        if ex == 'int':
            a = self.expr(x['args'][0])
            return 'raise (%s %s)' % (T, atom(a.s))
        # message dropped
        return 'raise %s' % T

    # ---------- statements
    def mutated(self, vid, body):
        """is variable vid possibly written in body?  conservative: anything except a plain read"""
        key = (vid, id(body))
        for n in walk(body):
            k = n.get('k')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'] in ASSIGN and self.refs(n['c'][0], vid): return True
            if k == 'UnaryOperator' and n['op'] in ('++', '--', '&') and self.refs(n['c'][0], vid): return True
            if k == 'CXXOperatorCallExpr':
                a = n['args']
                if n['op'] in ASSIGN + ('++', '--', '<<') and self.refs(a[0], vid): return True
                if 'fn' in n and n['op'] in ('[]', '*', '->') and self.refs(a[0], vid) and not n['fn'].get('const') and self.u.wty_safe(a[0]['t'])[:4] in ('str', '(seq', '(mp '): return True
            if k == 'CXXMemberCallExpr' and 'fn' in n and not n['fn'].get('const') and not n['fn'].get('static') and not n.get('arrow') and self.refs(n['obj'], vid): return True
            if 'fn' in n and 'args' in n and n['fn'].get('params') is not None:
                args = n['args']
                if k == 'CXXOperatorCallExpr' and 'cls' in n['fn'] and not n['fn'].get('static'): args = args[1:]
                for pt, a in zip(n['fn']['params'], args):
                    if is_ref(pt) and not is_const_ref(pt) and not pt.endswith('&&') and self.refs(a, vid): return True
            if k == 'DeclStmt':
                for d in n['decls']:
                    if is_ref(d['t']) and not is_const_ref(d['t']) and 'init' in d and self.refs(d['init'], vid): return True
            if k == 'CXXForRangeStmt' and is_ref(n['var']['t']) and not is_const_ref(n['var']['t']) and self.refs(n['range'], vid): return True
        return False
    def refs(self, e, vid):
        while True:
            k = e['k']
            if k == 'DeclRefExpr': return e.get('id') == vid
            if k in ('ImplicitCastExpr', 'ExplicitCastExpr') and e['ck'] != 'LValueToRValue': e = e['c'][0]; continue
            if k == 'MemberExpr' and not e.get('arrow'): e = e['c'][0]; continue
            if k == 'ArraySubscriptExpr': e = e['c'][0]; continue
            if k == 'CXXOperatorCallExpr' and e['op'] in ('[]',) : e = e['args'][0]; continue
            if k == 'CXXOperatorCallExpr' and e['op'] in ('=', '+=', '++', '--') : e = e['args'][0]; continue
            if k in ('BinaryOperator', 'CompoundAssignOperator') and e['op'] in ASSIGN: e = e['c'][0]; continue
            if k == 'UnaryOperator' and e['op'] in ('++', '--'): e = e['c'][0]; continue
            if k == 'CXXMemberCallExpr' and 'obj' in e and not e.get('arrow'): e = e['obj']; continue
            return False
    def declname(self, d):
        n = self.lname(d['n'])
        return n
    def decl(self, d, body_scope, rest):
        """translate a variable declaration followed by rest() """
        t = d['t']
        if d.get('static'):
            # function-local static constants
            pass
        if is_ref(t):
            a = d['init']
            w = self.u.wty(t)
            name = self.declname(d)
            if w == 'loc' and not noref(t).endswith('*') and not self.u.wty_is_ptr(t):
                x = self.objloc(a, False)
                self.setvar(d, Var('imm', name, t))
                return 'let %s = %s in\n%s' % (name, x.s, rest())
            if a.get('lv') and not (is_const_ref(t) and False):
                p, l = self.lv(a)
                v = Var('alias', name, t, l)
                self.setvar(d, v)
                return (' '.join(p) + '\n' if p else '') + rest()
            x = self.expr(a)
            self.setvar(d, Var('imm', name, t))
            return 'let %s = %s in\n%s' % (name, x.s, rest())
        w = None
        if 'init' in d:
            x = self.expr(d['init'])
        else:
            w = self.u.wty(t)
            if re.search(r'\[\d+\]$', t): raise Unsupported('array local')
            if noref(t) in INT and w == 'int': x = Ex('(rd_%s (any_int ()))' % TAG[noref(t)], True)
            elif w in ('int', 'loc'): x = Ex('(any_int ())', True)   # uninitialised
            elif w == 'bool': x = Ex('(any_bool ())', True)
            elif w == 'fl': x = Ex('(any_fl ())', True)
            else: x = Ex(self.u.default(t))
        w = self.u.wty(t)
        name = self.declname(d)
        cont = None
        if w.startswith('(iter') and 'init' in d: cont = self.itercont(d['init'])
        if self.mutated(d['id'], body_scope) or cont is not None and self.iterwrite:
            self.setvar(d, Var('ref', name, t)); self.vars[d['id']].cont = cont
            return 'let %s = ref (%s : %s) in\n%s' % (name, x.s, w, rest())
        self.setvar(d, Var('imm', name, t)); self.vars[d['id']].cont = cont
        return 'let %s = (%s : %s) in\n%s' % (name, x.s, w, rest())
    def itercont(self, e):
        """container lvalue an iterator expression ranges over, if syntactically evident and non-const"""
        objs = []
        x = e
        while x['k'] in ('ImplicitCastExpr', 'ExplicitCastExpr') or x['k'] == 'CXXConstructExpr' and len(x.get('args', [])) == 1:
            x = x['c'][0] if 'c' in x else x['args'][0]
        if x['k'] == 'CXXMemberCallExpr' and x.get('fn', {}).get('ours') and x['fn']['id'] in self.u.funcs and self.isthis(x['obj']) and self.findcontract(x['fn'], x) is None:
            e = self.u.funcs[x['fn']['id']]['body']     # a helper of this object returning an iterator into a member
        sub = {}
        if x['k'] == 'CallExpr' and x.get('fn', {}).get('ours') and x['fn']['id'] in self.u.funcs and self.findcontract(x['fn'], x) is None:
            f = self.u.funcs[x['fn']['id']]; e = f['body']    # a helper of one argument's container, as string_adaptor::begin
            sub = {pd['id']: a for pd, a in zip(f['pdecls'], x['args'])}
        for n in walk(e):
            if n.get('k') == 'CXXMemberCallExpr' and 'fn' in n and re.fullmatch(r'std::(vector|deque|basic_string|list)::(begin|end)', n['fn']['q']): objs.append(n['obj'])
        if not objs: return None
        try:
            ls = []
            for o in objs:
                while o['k'] == 'ImplicitCastExpr' and sub: o = o['c'][0]
                if sub and o['k'] == 'DeclRefExpr' and o.get('id') in sub: o = sub[o['id']]
                p, l = self.lv(o)
                if p or l.base[0] not in ('local', 'field'): return None
                ls.append((l.base, l.path, l))
        except Unsupported: return None
        if any(x[:2] != ls[0][:2] for x in ls): return None
        return ls[0][2]
    def setvar(self, d, v):
        self.vars[d['id']] = v
        self.localnames[v.name] = v
        if d['n'] and d['n'] not in self.localnames: self.localnames[d['n']] = v

    def block(self, stmts):
        """translate a list of statements to a unit expression"""
        return self.chain(list(stmts), False, True)
    def tail(self, stmts, unit):
        return self.chain(list(stmts), True, unit)
    def chain(self, stmts, tail, unit):
        """stmts -> expression.  tail: value of the expression is the function's return value."""
        if not stmts:
            if not tail: return '()'
            return '()' if unit else 'absurd'
        s = stmts[0]; rest = stmts[1:]
        if s is None: return self.chain(rest, tail, unit)
        k = s['k']
        if k == 'CompoundStmt':
            return self.chain(list(s['c']) + rest, tail, unit)
        if k == 'NullStmt': return self.chain(rest, tail, unit)
        if k == 'DeclStmt':
            ds = list(s['decls'])
            def go(i):
                if i == len(ds): return self.chain(rest, tail, unit)
                return self.decl(ds[i], [s] + rest + self.enclosing(), lambda: go(i + 1))
            return go(0)
        if k == 'ReturnStmt':
            v = None
            if s['c'] and s['c'][0] is not None and self.u.wty(self.retstack[-1]['ret']) != 'unit':
                a = s['c'][0]
                v = self.retval(a, self.retstack[-1]['ret'])
            elif s['c'] and s['c'][0] is not None:
                x = self.expr(s['c'][0])
                return '(%s; %s)' % (x.s, '()' if tail else self.doret(None))
            if tail and not self.loopstack: return v if v is not None else '()'
            return self.doret(v)
        if k == 'IfStmt':
            return self.ifstmt(s, rest, tail, unit)
        if k == 'CXXThrowExpr':
            return self.throw(s)
        if k == 'BreakStmt':
            return self.dobreak()
        if k == 'ContinueStmt':
            return self.docontinue()
        one = self.stmt(s, tail and not rest, unit)
        if exits(s): return one
        if not rest:
            if not tail: return one
            if unit: return one
            if k in ('SwitchStmt', 'CXXTryStmt') and self.tailable: 
                return one
            return '(%s; absurd)' % one
        return '(%s);\n%s' % (one, self.chain(rest, tail, unit))
    tailable = False
    def enclosing(self): return self.enc[-1] if self.enc else []
    enc = ()
    def retval(self, a, rt):
        if self.u.wty(rt) == 'loc' and is_ref(rt) and not noref(rt).endswith('*') and not self.u.wty_is_ptr(rt):
            return self.objloc(a, False).s
        if a.get('lv'):
            p, l = self.lv(a); return self.withpre(p, self.read(l)).s
        return self.expr(a).s
    def ifstmt(self, s, rest, tail, unit):
        if s.get('init') or s.get('var'):
            if s.get('var'):
                d = s['var']
                s2 = dict(s); s2.pop('var')
                return self.chain([{'k': 'DeclStmt', 'decls': [d], 'l': s['l']}, s2] + rest, tail, unit)
            raise Unsupported('if init')
        c, a, b = s['c']
        cv = self.const(c)
        ct = self.expr(c).s
        if tail and not self.loopstack:
            if exits(a):
                return 'if %s then (%s)\nelse (%s)' % (ct, self.chain([a], True, unit), self.chain(([b] if b else []) + rest, True, unit))
            if b is not None and exits(b):
                return 'if %s then (%s)\nelse (%s)' % (ct, self.chain([a] + rest, True, unit), self.chain([b], True, unit))
            if not rest:
                return 'if %s then (%s)\nelse (%s)' % (ct, self.chain([a], True, unit), self.chain([b] if b else [], True, unit))
            if has_return(a) or (b is not None and has_return(b)):
                # conditional returns inside: fall back to exception for those
                pass
        else:
            if exits(a) and (rest or b is not None):
                return 'if %s then (%s)\nelse (%s)' % (ct, self.chain([a], tail, unit), self.chain(([b] if b else []) + rest, tail, unit))
        lb = self.loopstack
        if tail and rest: self.loopstack = self.loopstack + [None]
        one = 'if %s then (%s)' % (ct, self.chain([a], False, True))
        if b is not None: one += '\nelse (%s)' % self.chain([b], False, True)
        self.loopstack = lb
        if not rest and not tail: return one
        return '(%s);\n%s' % (one, self.chain(rest, tail, unit))
    def dobreak(self):
        for l in reversed(self.loopstack):
            if l is None: continue
            if l['kind'] == 'switch':
                l['brk'] = True; return 'raise %s' % l['bname']
            return 'break' if not l.get('nested_try') else self._bx(l)
        raise Unsupported('break')
    def _bx(self, l):
        return 'break'
    def docontinue(self):
        for l in reversed(self.loopstack):
            if l is None or l['kind'] == 'switch': continue
            if l['inc']:
                l['cont'] = True; return 'raise %s' % l['cname']
            return 'continue'
        raise Unsupported('continue')
    def stmt(self, s, tail, unit):
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m: return m(s)
        if k in ('CXXTryStmt',): return self.trystmt(s, tail, unit)
        # expression statement
        x = self.expr(s)
        t = s.get('t', 'void')
        try: w = self.u.wty(t)
        except Unsupported: w = '?'
        if w == 'unit': return x.s
        return 'let _ = %s in ()' % x.s
    def loopspec(self):
        self.loopno += 1
        i = self.loopno - 1
        return self.c.loops[i] if i < len(self.c.loops) else None
    def loophead(self, lp, node=None):
        s = ''
        if node is not None:
            # a variable's value is in its machine type's range (an obligation like any other invariant)
            seen = set()
            for vid, v in list(self.vars.items()):
                t = noref(v.ty) if v.ty else ''
                if v.kind == 'ref' and t in INT and t != 'bool' and v.name not in seen and self.mutated(vid, node):
                    seen.add(v.name)
                    s += '  invariant { %d <= !%s <= %d }\n' % (INT[t][0], v.name, INT[t][1])
        if lp is None: return s
        for i in lp.inv: s += '  invariant { %s }\n' % self.ctext(i)
        if lp.var: s += '  variant { %s }\n' % self.ctext(lp.var)
        return s
    def loop(self, s, cond, inc, body, init=None):
        def mk():
            lp = self.loopspec()
            lab = 'L%d' % (self.loopno - 1)
            L = {'kind': 'loop', 'inc': inc is not None, 'cname': 'Cont_%d' % self.loopno, 'cont': False}
            # prescan nested loops keeps ordinal order: head first
            self.enc = list(self.enc) + [[s]]
            ct = self.expr(cond).s if cond is not None else 'true'
            hd = self.loophead(lp, s)
            self.loopstack = self.loopstack + [L]
            b = self.chain([body], False, True)
            i = ''
            if inc is not None:
                x = self.expr(inc)
                i = 'let _ = %s in ()' % x.s
            self.loopstack = self.loopstack[:-1]
            self.enc = self.enc[:-1]
            if L['cont']: b = '(exception %s in try %s with %s -> () end)' % (L['cname'], b, L['cname'])
            bs = self.ctext(lp.body_start) + ';\n' if lp and lp.body_start else ''
            be = ';\n' + self.ctext(lp.body_end) if lp and lp.body_end else ''
            r = 'label %s in\nwhile %s do\n%s  %s(%s)%s%s\ndone' % (lab, ct, hd, bs, b, (';\n  ' + i) if i else '', be)
            if lp and lp.ghost_pre: r = self.ctext(lp.ghost_pre) + (' ' if lp.ghost_pre.endswith(' in') else ';\n') + r
            if lp and lp.after: r = r + ';\n' + self.ctext(lp.after)
            return r
        if init is not None and init['k'] == 'DeclStmt':
            ds = init['decls']
            def go(i):
                if i == len(ds): return mk()
                return self.decl(ds[i], [s], lambda: go(i + 1))
            r = go(0)
            for d in ds:     # out of scope: no longer kept in step with its container
                if self.vars.get(d.get('id')) is not None: self.vars[d['id']].cont = None
            return r
        r = mk()
        if init is not None: r = 'let _ = %s in ();\n%s' % (self.expr(init).s, r)
        return r
    def s_WhileStmt(self, s):
        if s.get('var'): raise Unsupported('while decl')
        return self.loop(s, s['c'][0], None, s['c'][1])
    def s_ForStmt(self, s):
        return self.loop(s, s['c'][1], s['c'][2], s['c'][3], s['c'][0])
    def s_DoStmt(self, s):
        # do B while(c)  ==  while true do B; if not c then break done
        cond, body = s['c']
        lp = self.loopspec(); lab = 'L%d' % (self.loopno - 1)
        L = {'kind': 'loop', 'inc': True, 'cname': 'Cont_%d' % self.loopno, 'cont': False}
        hd = self.loophead(lp, s)
        self.loopstack = self.loopstack + [L]
        b = self.chain([body], False, True)
        self.loopstack = self.loopstack[:-1]
        if L['cont']: b = '(exception %s in try %s with %s -> () end)' % (L['cname'], b, L['cname'])
        cst = self.const(cond)
        ct = self.expr(cond).s
        if ct == 'false' and lp is None and not L.get('brk'):
            self.loopno -= 1
            return b
        return 'label %s in\nwhile true do\n%s  (%s);\n if not %s then break\ndone' % (lab, hd, b, atom(ct))
    def s_CXXForRangeStmt(self, s):
        w = self.u.wty(s['range']['t'])
        if not (w == 'str' or w.startswith('(seq')): raise Unsupported('range for over ' + w)
        p, l = self.lv(s['range'])
        idx = self.lname('range_i')
        lp = self.loopspec(); lab = 'L%d' % (self.loopno - 1)
        self.localnames['range_i'] = Var('ref', idx, 'int')
        L = {'kind': 'loop', 'inc': True, 'cname': 'Cont_%d' % self.loopno, 'cont': False}
        cur = atom(self.read(l).s)
        d = s['var']
        name = self.declname(d)
        if is_ref(d['t']) and w != '(seq loc)': self.setvar(d, Var('alias', name, d['t'], l.plus(('idx', '!' + idx), d['t'])))
        else: self.setvar(d, Var('imm', name, d['t']))
        hd = self.loophead(lp)
        self.loopstack = self.loopstack + [L]
        b = self.chain([s['body']], False, True)
        self.loopstack = self.loopstack[:-1]
        if L['cont']: b = '(exception %s in try %s with %s -> () end)' % (L['cname'], b, L['cname'])
        bind = '' if self.vars[d['id']].kind == 'alias' else 'let %s = %s[!%s] in ' % (name, cur, idx)
        return '%s let %s = ref 0 in label %s in\nwhile !%s < length %s do\n%s %s (%s); %s := !%s + 1\ndone' % (
            ' '.join(p), idx, lab, idx, cur, hd, bind, b, idx, idx)
    def s_SwitchStmt(self, s):
        cond, body = s['c']
        x = self.expr(cond)
        t = self.fresh('sw')
        # flatten cases
        items = []   # (labels, stmts)
        def add(st):
            if st['k'] == 'CaseStmt':
                new_label(int(st['v'])); add(st['c'][0])
            elif st['k'] == 'DefaultStmt':
                new_label('default'); add(st['c'][0])
            else: items[-1][1].append(st)
        def new_label(v):
            if items and not items[-1][1]: items[-1][0].append(v)
            else: items.append(([v], []))
        for st in body['c']: add(st)
        alll = [v for ls, _ in items for v in ls if v != 'default']
        def flat_exits(sts): return any(exits(y) for y in sts)
        nofall = all(flat_exits(sts) for _, sts in items[:-1])
        L = {'kind': 'switch', 'bname': self.fresh('Brk').capitalize(), 'brk': False}
        self.loopstack = self.loopstack + [L]
        try:
            out = ''
            if nofall:
                dflt = None; parts = []
                for ls, sts in items:
                    # strip trailing plain break
                    if sts and sts[-1]['k'] == 'BreakStmt': sts = sts[:-1]
                    b = self.chain(sts, False, True)
                    if 'default' in ls: dflt = b
                    else:
                        parts.append('if %s then (%s)' % (' || '.join('%s = %s' % (t, v if v >= 0 else '(%d)' % v) for v in ls), b))
                out = '\nelse '.join(parts)
                if dflt is not None: out += ('\nelse ' if parts else '') + '(%s)' % dflt
            else:
                f = self.fresh('fall')
                out = 'let %s = ref false in ' % f
                for ls, sts in items:
                    conds = ['!%s' % f]
                    for v in ls:
                        if v == 'default': conds.append('(' + (' && '.join('%s <> %d' % (t, w) if w >= 0 else '%s <> (%d)' % (t, w) for w in alll) or 'true') + ')')
                        else: conds.append('%s = %s' % (t, v if v >= 0 else '(%d)' % v))
                    out += 'if %s then (%s := true; %s);\n' % (' || '.join(conds), f, self.chain(sts, False, True))
                out += '()'
        finally:
            self.loopstack = self.loopstack[:-1]
        out = 'let %s = %s in %s' % (t, x.s, out)
        if L['brk']: out = '(exception %s in try %s with %s -> () end)' % (L['bname'], out, L['bname'])
        return out
    def trystmt(self, s, tail, unit):
        # body as unit/tail expression with handlers
        b = self.chain([s['body']], tail, unit)
        hs = []
        for h in s['handlers']:
            t = h['t']
            exn = self.u.catchable(t)
            hb = self.chain([h['body']], tail, unit)
            for ex in exn:
                arg = ' _' if self.u.exceptions[ex] == 'int' else ''
                hs.append('%s%s -> (%s)' % (ex[0].upper() + ex[1:], arg, hb))
        self.tailable = tail
        return '(try (%s) with %s end)' % (b, ' | '.join(hs))

    # ---------- whole function
    def translate(self):
        f = self.fn; c = self.c
        names = list(c.params)
        sig = []
        if 'cls' in f and not f.get('static') :
            n = names.pop(0)
            self.used.add(n)
            if head(f['cls']) in self.u.value_classes:
                if f.get('const'):
                    sig.append('(%s : %s)' % (n, self.u.wty(f['cls'])))
                    self.thisstack.append(LV(('imm', n), (), f['cls']))
                    self.localnames[n] = Var('imm', n, f['cls'])
                else:
                    sig.append('(%s : ref %s)' % (n, self.u.wty(f['cls'])))
                    self.thisstack.append(LV(('local', n), (), f['cls']))
                    self.localnames[n] = Var('ref', n, f['cls'])
            else:
                sig.append('(%s : loc)' % n)
                self.thisstack.append(n)
        else: self.thisstack.append(None)
        pre = ''
        if len(names) < len(f['pdecls']): raise Unsupported('contract has %d parameters, code has %d' % (len(names), len(f['pdecls'])))
        ghostparams = names[len(f['pdecls']):]
        for pd, n in zip(f['pdecls'], names):
            t = pd['t']; w = self.u.wty(t)
            if is_ref(t) and not is_const_ref(t) and not t.strip().endswith('&&') and (w != 'loc' or noref(t).endswith('*')):
                self.used.add(n)
                sig.append('(%s : ref %s)' % (n, w))
                v = Var('ref', n, t)
            elif self.mutated(pd['id'], f['body']):
                self.used.add(n); self.used.add(n + '_v')
                sig.append('(%s : %s)' % (n, w))
                pre += 'let %s_v = ref %s in\n' % (n, n)
                v = Var('ref', n + '_v', t)
            else:
                self.used.add(n)
                sig.append('(%s : %s)' % (n, w))
                v = Var('imm', n, t)
            self.vars[pd['id']] = v
            self.localnames[n] = v
            self.localnames[n + '_in'] = Var('imm', n, t)
        if not sig: sig = ['(_u : unit)']
        ret = self.u.wty(f['ret'])
        if f.get('ctor'): ret = 'unit'
        self.ranges = ranges(f, names)
        self.sigtext = ' '.join(sig); self.rettext = ret
        self.retstack = [{'ret': f['ret'], 'name': 'RetTop', 'used': False}]
        self.doret = self.doret_top
        initc = ''
        if f.get('ctor'):
            for i in f['inits']:
                if 'field' in i:
                    q = i['q']
                    lvx = self.fieldlv(q, self.thisstack[-1], i['ft'])
                    if lvx.base[0] != 'field': 
                        if i.get('written') and i['init'].get('args'): raise Unsupported('embedded object initialiser ' + q)
                        continue
                    initc += self.write(lvx, self.expr(i['init']).s if not i['init'].get('lv') else self.rd(i['init']).s) + ';\n'
                elif 'base' in i:
                    bi = i['init']
                    while bi['k'] != 'CXXConstructExpr': bi = bi['c'][0]
                    if bi['fn']['id'] in self.u.funcs: initc += self.inline_basector(bi) + ';\n'
                    elif bi['args']: raise Unsupported('base ctor ' + i['base'])
                else: raise Unsupported('delegating ctor')
            body = initc + self.tail([f['body']], True)
        else:
            body = self.tail([f['body']], ret == 'unit')
        body = pre + body
        if self.c.ghost.get('entry'): body = self.ctext(self.c.ghost['entry']) + ';\n' + body
        if len(self.c.loops) > self.loopno:
            raise Unsupported('contract annotates %d loops, code has %d' % (len(self.c.loops), self.loopno))
        return body
    def inline_basector(self, e):
        f = self.u.funcs[e['fn']['id']]
        pre = []
        binds = {}
        for pd, a in zip(f['pdecls'], e['args']): binds[pd['id']] = self.bindparam(pd, a, f, pre)
        for pid, (v, n) in binds.items(): self.vars[pid] = v
        th = self.thisstack[-1]
        out = ''
        for i in f['inits']:
            if 'field' in i:
                lvx = self.fieldlv(i['q'], th, i['ft'])
                if lvx.base[0] != 'field': continue
                out += self.write(lvx, self.rd(i['init']).s) + '; '
            elif 'base' in i:
                bi = i['init']
                while bi['k'] != 'CXXConstructExpr': bi = bi['c'][0]
                if bi['fn']['id'] in self.u.funcs: out += self.inline_basector(bi) + '; '
        self.inl.append(f['q'])
        if f['q'] not in self.inlined: self.inlined.append(f['q'])
        try: b = self.chain([f['body']], False, True)
        finally: self.inl.pop()
        return '(%s %s %s)' % (' '.join(pre), out, b)
    def doret_top(self, val):
        if len(self.retstack) == 1:
            return 'return' if val is None else 'return %s' % atom(val)
        return Tr.doret(self, val)

def spec(c, t):
    return t

def ranges(f, names):
    out = []
    for pt, n in zip(f['params'], names):
        t = noref(pt)
        if t in INT and t != 'bool':
            d = '!' if is_ref(pt) and not is_const_ref(pt) and not pt.strip().endswith('&&') else ''
            out.append('%d <= %s%s <= %d' % (INT[t][0], d, n, INT[t][1]))
    return out

def header(c, kind, sig, ret, name, rng=()):
    s = '%s %s %s : %s\n' % (kind, name, sig, ret)
    for r in rng: s += '  requires { %s }\n' % r
    for r in c.requires: s += '  requires { %s }\n' % r
    if kind.startswith('val'):
        if c.allwrites: s += '  writes { %s }\n' % ', '.join(sorted(c.allwrites))
    for e in c.ensures: s += '  ensures { %s }\n' % e
    for x, p in c.raises: s += '  raises { %s -> %s }\n' % (x, p)
    if c.variant and not kind.startswith('val'): s += '  variant { %s }\n' % c.variant
    if c.diverges: s += '  diverges\n'
    return s
