from cxx2why import *
T = 'Arabica::text::'
X = 'Arabica::XML::'
TUS = [('tu_text.cpp', [T + 'normalize_whitespace', X + 'is_space'])]

def make_unit():
    u = Unit()
    u.spec = r'''
  let predicate sp (c: int) = c = 0x20 || c = 0x9 || c = 0xD || c = 0xA
  (* the normalised form of the first i characters: each character that is not white space, after one space if white
     space precedes it and something has already been kept *)
  let rec function nrm (s: str) (i: int) : str
    requires { 0 <= i <= length s } variant { i }
    ensures { length result <= i }
    ensures { i > 0 -> sp s[i - 1] -> length result < i }
  = if i = 0 then empty
    else let r = nrm s (i - 1) in
      if sp s[i - 1] then r
      else if i >= 2 && sp s[i - 2] && length r > 0 then snoc (snoc r 0x20) s[i - 1]
      else snoc r s[i - 1]
  predicate clean (r: str) =
    (length r > 0 -> not (sp r[0]) /\ not (sp r[length r - 1])) /\
    (forall j. 0 <= j < length r -> sp r[j] -> r[j] = 0x20) /\
    (forall j. 0 <= j < length r - 1 -> sp r[j] -> not (sp r[j + 1]))
  (* trimmed, runs collapsed *)
  let rec lemma nrm_clean (s: str) (i: int)
    requires { 0 <= i <= length s } ensures { clean (nrm s i) } variant { i }
  = if i > 0 then nrm_clean s (i - 1)
  (* and nothing else: a clean string is left as it is, so normalising twice is the same as once *)
  let rec lemma nrm_of_clean (r: str) (k: int)
    requires { clean r /\ 0 <= k <= length r } variant { k }
    ensures { nrm r k == if k > 0 && sp r[k - 1] then r[0 .. k - 1] else r[0 .. k] }
  = if k > 0 then nrm_of_clean r (k - 1)
  predicate copied (v s: str) (n: str) (p i: int) =
    length v = length s /\ (forall j. 0 <= j < length n -> v[j] = n[j]) /\ forall j. i <= j < length s -> v[j] = s[j]
'''
    C = u.contracts.append
    C(Contract(X + 'is_space', 'is_space', ['c'], ensures=['result <-> sp c']))
    its = 'i.it_c = value /\\ ie.it_c = value /\\ p.it_c = value /\\ pe.it_c = value /\\ ie.it_p = length value /\\ pe.it_p = length value'
    N = '(nrm ch i.it_p)'
    BASE = [its, '0 <= p.it_p <= i.it_p <= length ch', 'copied value ch %s p.it_p i.it_p' % N]
    START = '(p.it_p = 0 /\\ length %s = 0)' % N
    PEND = '(length %s > 0 /\\ p.it_p = length %s + 1 /\\ value[p.it_p - 1] = 0x20 /\\ i.it_p > 0 /\\ sp ch[i.it_p - 1] /\\ i.it_p < length ch)' % (N, N)
    NL = '(i.it_p > 0 /\\ not (sp ch[i.it_p - 1]) /\\ p.it_p = length %s)' % N
    END = '(i.it_p = length ch /\\ p.it_p = length %s)' % N
    V = 'length ch - i.it_p'
    C(Contract(T + 'normalize_whitespace', 'normalize', ['ch'], ensures=['result == nrm ch (length ch)', 'clean result', 'nrm result (length result) == result'],
      loops=[Loop(inv=BASE + [START, 'value = ch'], var=V),
             Loop(inv=BASE + ['%s \\/ %s \\/ %s' % (START, PEND, END), 'i.it_p = length ch \\/ not (sp ch[i.it_p])'], var=V),
             Loop(inv=BASE + ['%s \\/ %s \\/ %s' % (START, PEND, NL), 'i0 <= i.it_p', 'i.it_p = i0 -> i.it_p < length ch /\\ not (sp ch[i.it_p])', 'i.it_p > i0 -> %s' % NL], var=V, ghost_pre='let ghost i0 = i.it_p in'),
             Loop(inv=BASE + ['p.it_p = length %s' % N, 'i1 <= i.it_p', 'length %s > 0' % N, 'i.it_p > i1 -> sp ch[i.it_p - 1]', 'i.it_p = i1 -> i.it_p = length ch \\/ sp ch[i.it_p]'], var=V, ghost_pre='let ghost i1 = i.it_p in')]))
    return u
