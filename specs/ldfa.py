"""Contracts for minimising and running the lookahead automaton (src/core/LookaheadDFA.hpp): P05.

A destination -k < 0 stands for the choice of alternative k.  The texts for redirecting, filtering and merging are those
of specs/dfa.py with the states' accept flags and labels removed and negative destinations kept as they are."""
import re
import charclass, dfa

PRE = r'''
  use list.List
  type trs = seq ntrans
  predicate dests (s : trs) (n : int) = forall k. 0 <= k < length s -> s[k].ntrans__m_dest < n
  predicate tin (s : trs) (c j : int) = exists k. 0 <= k < length s /\ s[k].ntrans__m_dest = j /\ cin s[k].ntrans__m_label c
  function dst (d : dfa) : seq dstate = d.dfa__base.dabase__m_states
  function dn (d : dfa) : int = length (dst d)
  function dtr (d : dfa) (i : int) : trs = (dst d)[i].dstate__base.dbase__m_transitions
  predicate alldests (d : dfa) = forall i. 0 <= i < dn d -> dests (dtr d i) (dn d)
  predicate ddet (d : dfa) = forall s k l c. 0 <= s < dn d -> 0 <= k < length (dtr d s) -> 0 <= l < length (dtr d s) -> cin (dtr d s)[k].ntrans__m_label c -> cin (dtr d s)[l].ntrans__m_label c -> k = l
  (* reading the word from state s chooses alternative k *)
  predicate pick (d : dfa) (s : int) (w : list int) (k : int) = match w with
    | Nil -> false
    | Cons c t -> exists j. tin (dtr d s) c j /\ ((j < 0 /\ k = 0 - j) \/ (j >= 0 /\ pick d j t k)) end
  function sfx (s : seq int) (i : int) : list int
  axiom sfx_end : forall s i. i >= length s -> sfx s i = Nil
  axiom sfx_cons : forall s i. 0 <= i < length s -> sfx s i = Cons s[i] (sfx s (i + 1))
'''

def pre5():
    t = dfa.PRE5[:dfa.PRE5.index('  (* a mapping of states')]
    t = t.replace('if 0 <= d < length m && m[d] then snoc (ftr m s (n - 1)) s[n - 1]', 'if d < 0 || (d < length m && m[d]) then snoc (ftr m s (n - 1)) s[n - 1]')
    t = t.replace('0 <= (ftr m s n)[k].ntrans__m_dest < b /\\ (ftr m s n)[k].ntrans__m_dest < length m /\\ m[(ftr m s n)[k].ntrans__m_dest]',
                  '(ftr m s n)[k].ntrans__m_dest < b /\\ (0 <= (ftr m s n)[k].ntrans__m_dest -> (ftr m s n)[k].ntrans__m_dest < length m /\\ m[(ftr m s n)[k].ntrans__m_dest])')
    t = t.replace('assert { 0 <= d < b };', 'assert { d < b };').replace('if 0 <= d < length m && m[d] then begin', 'if d < 0 || (d < length m && m[d]) then begin')
    t = t.replace('0 <= s[k].ntrans__m_dest < length m /\\ m[s[k].ntrans__m_dest]', '0 <= s[k].ntrans__m_dest -> s[k].ntrans__m_dest < length m /\\ m[s[k].ntrans__m_dest]')
    return t + r'''
  (* where a transition leads after renumbering: choices stay *)
  function gto (g : seq int) (j : int) : int = if j < 0 then j else g[j]
  let rec ghost gsim (a b : dfa) (g : seq int) (i : int) (w : list int) (k : int) : unit
    requires { length g = dn a /\ 0 <= i < dn a } requires { forall j. 0 <= j < dn a -> 0 <= g[j] }
    requires { forall i c j. 0 <= i < dn a -> tin (dtr a i) c j -> j < dn a /\ tin (dtr b g[i]) c (gto g j) }
    requires { forall i c j. 0 <= i < dn a -> tin (dtr b g[i]) c j -> exists k. tin (dtr a i) c k /\ j = gto g k }
    variant { w } ensures { pick a i w k <-> pick b g[i] w k }
  = match w with Nil -> ()
    | Cons c t ->
      if pure { pick a i w k } then begin
        let j = any int ensures { tin (dtr a i) c result /\ ((result < 0 /\ k = 0 - result) \/ (result >= 0 /\ pick a result t k)) } in
        if j >= 0 then gsim a b g j t k; assert { tin (dtr b g[i]) c (gto g j) } end;
      if pure { pick b g[i] w k } then begin
        let j = any int ensures { tin (dtr b g[i]) c result /\ ((result < 0 /\ k = 0 - result) \/ (result >= 0 /\ pick b result t k)) } in
        let m = any int ensures { tin (dtr a i) c result /\ j = gto g result } in if m >= 0 then gsim a b g m t k end
    end
'''

PRE6 = r'''
  predicate teq (a b : dstate) = forall c j. tin a.dstate__base.dbase__m_transitions c j <-> tin b.dstate__base.dbase__m_transitions c j
''' + dfa.PRE6[dfa.PRE6.index('  (* std::unordered_map<DFAState'):dfa.PRE6.index('  let ghost min_lang')].replace('std::unordered_map<DFAState, int>', 'std::unordered_map<LDFAState, int>') + r'''
  function rto (rr : seq int) (j : int) : int = if j < 0 then j else rr[j]
  function cto (mk : seq bool) (j : int) : int = if j < 0 then j else cnt mk j
  let ghost min_lang (a r b : dfa) (rm : seq int) (mk : seq bool) (rr : seq int) : unit
    requires { dn a > 0 /\ alldests a /\ ddet a /\ dn r = dn a /\ length rm = dn a /\ length mk = dn a /\ length rr = dn a }
    requires { forall i. 0 <= i < dn a -> rr[i] = if rm[i] >= 0 then rm[i] else i }
    requires { forall i. 0 <= i < dn a -> rm[i] >= 0 -> rm[i] < i /\ teq (dst a)[i] (dst a)[rm[i]] }
    requires { forall i. 0 <= i < dn a -> 0 <= rr[i] < dn a /\ mk[rr[i]] }
    requires { forall i. 0 <= i < dn a -> length (dtr r i) = length (dtr a i) }
    requires { forall i k. 0 <= i < dn a -> 0 <= k < length (dtr a i) -> (dtr r i)[k].ntrans__m_label = (dtr a i)[k].ntrans__m_label /\ (dtr r i)[k].ntrans__m_dest = rto rr (dtr a i)[k].ntrans__m_dest }
    requires { forall i. 0 <= i < dn a -> mk[i] -> 0 <= cnt mk i < dn b }
    requires { forall i. 0 <= i < dn a -> mk[i] -> length (dtr b (cnt mk i)) = length (dtr a i) }
    requires { forall i k. 0 <= i < dn a -> mk[i] -> 0 <= k < length (dtr a i) -> (dtr b (cnt mk i))[k].ntrans__m_label = (dtr r i)[k].ntrans__m_label /\ (dtr b (cnt mk i))[k].ntrans__m_dest = cto mk (dtr r i)[k].ntrans__m_dest }
    requires { forall j. 0 <= j < dn b -> let i = ith mk (dn a) j in 0 <= i < dn a /\ mk[i] /\ cnt mk i = j }
    ensures { forall w k. pick b 0 w k <-> pick a 0 w k } ensures { dn b > 0 } ensures { alldests b } ensures { ddet b }
  = let g = create (dn a) (fun i -> pure { cnt mk rr[i] }) in
    assert { forall i c j. 0 <= i < dn a -> (tin (dtr a i) c j <-> tin (dtr a rr[i]) c j) };
    assert { forall j. 0 <= j < dn a -> 0 <= g[j] };
    let lemma fwd (i c j : int) : unit requires { 0 <= i < dn a /\ tin (dtr a i) c j } ensures { j < dn a } ensures { tin (dtr b g[i]) c (gto g j) }
    = assert { dests (dtr a i) (dn a) }; let k = any int ensures { 0 <= result < length (dtr a rr[i]) /\ (dtr a rr[i])[result].ntrans__m_dest = j /\ cin (dtr a rr[i])[result].ntrans__m_label c } in
      let t = pure { (dtr b g[i])[k] } in assert { t.ntrans__m_dest = gto g j /\ cin t.ntrans__m_label c } in
    let lemma bwd (i c j : int) : unit requires { 0 <= i < dn a /\ tin (dtr b g[i]) c j } ensures { exists k. tin (dtr a i) c k /\ j = gto g k }
    = let k = any int ensures { 0 <= result < length (dtr b g[i]) /\ (dtr b g[i])[result].ntrans__m_dest = j /\ cin (dtr b g[i])[result].ntrans__m_label c } in
      let t = pure { (dtr a rr[i])[k] } in assert { dests (dtr a rr[i]) (dn a) }; let e = pure { t.ntrans__m_dest } in assert { tin (dtr a rr[i]) c e }; assert { tin (dtr a i) c e }; assert { j = gto g e } in
    let lemma same (w : list int) (k : int) : unit ensures { pick b 0 w k <-> pick a 0 w k } = assert { rr[0] = 0 /\ g[0] = 0 }; gsim a b g 0 w k in
    let lemma dd (j : int) : unit requires { 0 <= j < dn b } ensures { dests (dtr b j) (dn b) }
      ensures { forall k l c. 0 <= k < length (dtr b j) -> 0 <= l < length (dtr b j) -> cin (dtr b j)[k].ntrans__m_label c -> cin (dtr b j)[l].ntrans__m_label c -> k = l }
    = let i = ith mk (dn a) j in assert { 0 <= i < dn a /\ mk[i] /\ cnt mk i = j };
      assert { dests (dtr a i) (dn a) };
      assert { forall k. 0 <= k < length (dtr a i) -> (dtr b j)[k].ntrans__m_label = (dtr a i)[k].ntrans__m_label /\ (dtr b j)[k].ntrans__m_dest = cto mk (rto rr (dtr a i)[k].ntrans__m_dest) } in
    assert { mk[rr[0]] }
'''

def sub(x, T):
    """A contract of specs/dfa.py for the lookahead automaton."""
    if isinstance(x, list): return [sub(y, T) for y in x]
    if isinstance(x, tuple): return tuple(sub(y, T) for y in x)
    if isinstance(x, dict): return {k: sub(v, T) for k, v in x.items()}
    if not isinstance(x, str): return x
    t = x.replace('DFA<%s>::' % T, 'LookaheadDFA<%s>::' % T).replace('NFABaseState<%s,IndexVector>' % T, base(T)).replace('DFAState<%s>' % T, 'LDFAState<%s>' % T)
    I = r'\w+(?: !?\w+| \([^()]*\))'           # dacc d i
    t = re.sub(r'dlab \S+ (\w+|\([^()]*\)) = dlab (\S+|\([^()]*\)) \w+ /\\ dacc \S+ (\w+|\([^()]*\)) = dacc (\S+|\([^()]*\)) \w+ /\\ ', '', t)
    return t

def base(T): return 'NFABaseState<%s,std::set<CATNClosureElement>>' % T

def functions(T):
    d = dfa.functions(T); F = {}
    cf = charclass.functions(T)
    for k in ('cc_includes_ch',): F[k] = dict(key=cf[k]['key'], requires=cf[k].get('requires', []), ensures=cf[k]['ensures'], trusted=True)
    F['cc_eq'], F['tr_eq'] = d['cc_eq'], d['tr_eq']
    F['db_eq'] = dict(sub(d['db_eq'], T), key=base(T) + '::operator==')
    F['redirect'] = sub(d['redirect'], T); F['redirect']['requires'] = ['from >= 0']
    O = '(old !this)'
    nt = lambda j: '(!nodes)[%s].dstate__base.dbase__m_transitions' % j
    n1t = lambda j: '(n1[%s].dstate__base.dbase__m_transitions)' % j
    nodeinv = ['!this = d0', '0 <= !src_index <= dn d0', 'length !index_map = dn d0', '!dest_index = cnt mask !src_index', 'length !nodes = !dest_index',
               'forall i. 0 <= i < !src_index -> mask[i] -> (!index_map)[i] = cnt mask i',
               'forall i. 0 <= i < !src_index -> mask[i] -> 0 <= cnt mask i < length !nodes',
               'forall i. 0 <= i < !src_index -> mask[i] -> %s = ftr mask (dtr d0 i) (length (dtr d0 i))' % nt('cnt mask i')]
    ren = ['length !nodes = length n1', 'forall j. 0 <= j < length n1 -> length %s = length %s' % (nt('j'), n1t('j')),
           'forall j k. 0 <= j < length n1 -> 0 <= k < length %s -> %s[k].ntrans__m_label = %s[k].ntrans__m_label' % (n1t('j'), nt('j'), n1t('j'))]
    rend = lambda c: 'forall j k. 0 <= j < length n1 -> 0 <= k < length %s -> %s[k].ntrans__m_dest = if %s && %s[k].ntrans__m_dest >= 0 then im[%s[k].ntrans__m_dest] else %s[k].ntrans__m_dest' % (n1t('j'), nt('j'), c, n1t('j'), n1t('j'), n1t('j'))
    F['filter'] = dict(key='LookaheadDFA<%s>::filter_nodes' % T, requires=['length mask = dn !this', 'forall i. 0 <= i < dn !this -> dests (dtr !this i) (dn !this)'],
        ensures=['dn !this = cnt mask (dn (old !this))',
                 'forall i. 0 <= i < dn (old !this) -> mask[i] -> 0 <= cnt mask i < dn !this',
                 'forall i. 0 <= i < dn (old !this) -> mask[i] -> length (dtr !this (cnt mask i)) = length (ftr mask (dtr (old !this) i) (length (dtr (old !this) i)))',
                 'choices and transitions to kept states are kept with their label:: forall i k. 0 <= i < dn (old !this) -> mask[i] -> 0 <= k < length (dtr !this (cnt mask i)) -> (dtr !this (cnt mask i))[k].ntrans__m_label = (ftr mask (dtr (old !this) i) (length (dtr (old !this) i)))[k].ntrans__m_label',
                 'and lead to the same choice or the renumbered state:: forall i k. 0 <= i < dn (old !this) -> mask[i] -> 0 <= k < length (dtr !this (cnt mask i)) -> (dtr !this (cnt mask i))[k].ntrans__m_dest = cto mask (ftr mask (dtr (old !this) i) (length (dtr (old !this) i)))[k].ntrans__m_dest',
                 'no other states appear:: forall j. 0 <= j < dn !this -> let i = ith mask (dn (old !this)) j in 0 <= i < dn (old !this) /\\ mask[i] /\\ cnt mask i = j'],
        ghost={'entry': 'let ghost d0 = !this in cnt_onto mask (dn d0);', 'begin0': 'cnt_lt mask !src_index; let ghost s0 = !src_index in let ghost n0 = !nodes in',
               'end0': 'assert { not mask[s0] -> !nodes = n0 }; assert { mask[s0] -> forall j. 0 <= j < length n0 -> (!nodes)[j] = n0[j] }; assert { mask[s0] -> cnt mask s0 = length n0 /\\ %s = ftr mask (dtr d0 s0) (length (dtr d0 s0)) }' % nt('cnt mask s0'),
               'before2': '''cnt_onto mask (dn d0); let ghost n1 = !nodes in let ghost im = !index_map in
                  let ghost lemma dok (j k : int) : unit requires { 0 <= j < length n1 /\\ 0 <= k < length (n1[j].dstate__base.dbase__m_transitions) }
                    ensures { n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest < dn d0 }
                    ensures { 0 <= n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest -> mask[n1[j].dstate__base.dbase__m_transitions[k].ntrans__m_dest] }
                  = let i = ith mask (dn d0) j in assert { 0 <= i < dn d0 /\\ mask[i] /\\ cnt mask i = j };
                    ftr_ok mask (dtr d0 i) (length (dtr d0 i)) (dn d0) in''',
               'before3': 'let ghost j0 = !ix_n in'},
        loops=[dict(inv=nodeinv, var=['dn d0 - !src_index']), dict(inv=['!this = d0', '!filtered = ftr mask (dtr d0 !src_index) @ix']),
               dict(inv=ren + [rend('j < @ix'), '!index_map = im', '!this = d0']),
               dict(inv=ren + [rend('(j < j0 || j = j0 && k < @ix)'), '!index_map = im', '!this = d0'])])
    same0 = 'forall i. 0 <= i < dn d0 -> dtr !this i = dtr d0 i'
    shape = 'forall i. 0 <= i < dn d0 -> length (dtr !this i) = length (dtr d0 i)'
    mlen = ['dn !this = dn d0', '0 <= !index <= dn d0', 'length !mask = dn d0', 'length !remap = dn d0']
    F['minimize'] = dict(key='LookaheadDFA<%s>::minimize' % T,
        requires=['dn !this > 0', 'alldests !this', 'ddet !this'],
        ensures=['every input chooses what it chose before:: forall w k. pick !this 0 w k <-> pick (old !this) 0 w k', 'dn !this > 0', 'every transition chooses or stays inside:: alldests !this', 'ddet !this',
                 'there are no more states than before:: dn !this <= dn (old !this)'],
        ghost={'entry': 'let ghost d0 = !this in let ghost gd = ref !this in', 'begin0': 'let ghost x0 = !index in let ghost rm0 = !remap in assert { teq (dst !this)[x0] (dst d0)[x0] }; assert { teq (dst d0)[x0] (dst !this)[x0] };',
               'end0': d['minimize']['ghost']['end0'],
               'before1': 'let ghost rm = !remap in let ghost mk = !mask in let ghost rr = create (dn d0) (fun i -> pure { if rm[i] >= 0 then rm[i] else i }) in assert { forall d. 0 <= d < dn d0 -> rm[d] >= 0 -> rm[rm[d]] < 0 /\\ rm[d] < d }; assert { forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr d0 i)[k].ntrans__m_dest < dn d0 };',
               'begin1': 'let ghost d1 = !this in let ghost i1 = !index in',
               'end1': d['minimize']['ghost']['end1'],
               'after1': d['minimize']['ghost']['after1'].replace('= rr[(dtr d0 i)[k].ntrans__m_dest]', '= rto rr (dtr d0 i)[k].ntrans__m_dest'),
               'exit': d['minimize']['ghost']['exit']},
        loops=[dict(inv=mlen + [same0, 'forall i. 0 <= i < dn d0 -> (!remap)[i] >= 0 -> (!remap)[i] < i /\\ i < !index /\\ not (!mask)[i] /\\ (!remap)[(!remap)[i]] < 0 /\\ teq (dst d0)[i] (dst d0)[(!remap)[i]]',
                                'forall i. 0 <= i < dn d0 -> (!remap)[i] < 0 -> (!mask)[i]',
                                'forall k v. kent !equiv_map k v -> 0 <= v < !index /\\ (!remap)[v] < 0 /\\ teq k (dst d0)[v]'], var=['dn d0 - !index']),
               dict(inv=mlen + ['!remap = rm', '!mask = mk', shape, 'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_label = (dtr d0 i)[k].ntrans__m_label',
                                'forall i k. 0 <= i < dn d0 -> 0 <= k < length (dtr d0 i) -> (dtr !this i)[k].ntrans__m_dest = let d = (dtr d0 i)[k].ntrans__m_dest in if 0 <= d < !index && rm[d] >= 0 then rm[d] else d'], var=['dn d0 - !index'])])
    F['lrun'] = dict(key='LookaheadDFA<%s>::run' % T, rec=True, variant=['length seq - input_pos'], requires=['alldests this', 'ddet this', '0 <= index < dn this', '0 <= input_pos <= length seq'],
        ensures=['nothing is chosen only if the input chooses nothing:: result = -1 -> forall k. k >= 0 -> not (pick this index (sfx seq input_pos) k)',
                 'the alternative chosen is the one of the automaton:: result <> -1 -> result > 0 /\\ pick this index (sfx seq input_pos) result'],
        ghost={'before0': '''let ghost c0 = seq[input_pos] in let ghost w1 = sfx seq (input_pos + 1) in let ghost ts = dtr this index in assert { sfx seq input_pos = Cons c0 w1 };
               let ghost lemma hit (k : int) : unit requires { 0 <= k < length ts /\\ cin ts[k].ntrans__m_label c0 }
                 ensures { let d = ts[k].ntrans__m_dest in forall m. pick this index (Cons c0 w1) m <-> (if d < 0 then m = 0 - d else pick this d w1 m) }
               = let d = pure { ts[k].ntrans__m_dest } in assert { tin ts c0 d }; assert { forall j. tin ts c0 j -> j = d } in'''},
        loops=[dict(inv=['forall k. 0 <= k < @ix -> not (cin (dtr this index)[k].ntrans__m_label seq[input_pos])'])])
    return F

def spec(part='p05', T='char'):
    a = charclass.spec(T)
    F = functions(T)
    LB = base(T)
    return dict(tu='''#include "LookaheadDFA.hpp"
#include "CharClass.cpp"
#include "CompositeATN.cpp"
namespace Centaurus { template class LookaheadDFA<%(T)s>; }
''' % dict(T=T),
        files=['CharClass.hpp', 'CharClass.cpp', 'Util.hpp', 'NFA.hpp', 'LookaheadDFA.hpp', 'CompositeATN.hpp', 'CompositeATN.cpp'],
        typenames=dict(a['typenames'], **{'NFATransition<%s>' % T: 'ntrans', LB: 'dbase', 'LDFAState<%s>' % T: 'dstate',
            'NFABase<LDFAState<%s>>' % T: 'dabase', 'LookaheadDFA<%s>' % T: 'dfa'}),
        drop_fields={LB: ('m_label',)}, tyaliases={'LDFATransition<%s>' % T: 'NFATransition<%s>' % T, 'CATNClosure': 'std::set<CATNClosureElement>'},
        types=a['types'] + ['NFATransition<%s>' % T, 'LookaheadDFA<%s>' % T],
        preamble=a['preamble'] + PRE + pre5() + PRE6, containers={'(fmap dstate int)': ['dmap', 'k']}, functions=F)
