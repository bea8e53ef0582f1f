"""Contracts for names, paths, priority chains and closure elements (Identifier.hpp, Util.hpp, CompositeATN.hpp)."""

STR = r'''
  (* ---- std::wstring::compare and std::hash<std::wstring> (trusted library contracts); the order itself is defined here *)
  predicate sdiff (s t : seq int) (k : int) = 0 <= k <= length s /\ k <= length t /\ (forall j. 0 <= j < k -> s[j] = t[j])
  predicate slt (s t : seq int) = exists k. sdiff s t k /\ ((k = length s /\ k < length t) \/ (k < length s /\ k < length t /\ s[k] < t[k]))
  val str_compare (s t : seq int) : int
    ensures { result < 0 <-> slt s t } ensures { result > 0 <-> slt t s } ensures { result = 0 <-> s = t }
  function str_hash (s : seq int) : int
  val str_hash (s : seq int) : int ensures { result = str_hash s }
  let rec ghost common_prefix (s t : seq int) (k : int) : int
    requires { sdiff s t k } variant { length s - k }
    ensures { sdiff s t result } ensures { result = length s \/ result = length t \/ s[result] <> t[result] }
  = if k < length s && k < length t && pure { s[k] = t[k] } then common_prefix s t (k + 1) else k
  let lemma slt_total (s t : seq int) : unit
    ensures { [@expl:strict order of names is total] slt s t \/ slt t s \/ s = t }
  = let k = common_prefix s t 0 in
    assert { sdiff t s k };
    if k = length s && k = length t then assert { s == t }
  let lemma slt_irreflexive (s : seq int) : unit ensures { not (slt s s) } = ()
  let lemma slt_transitive (s t u : seq int) : unit
    requires { slt s t /\ slt t u } ensures { [@expl:order of names is transitive] slt s u }
  = let k = common_prefix s t 0 in let l = common_prefix t u 0 in
    assert { slt s t -> k = length s /\ k < length t \/ k < length s /\ k < length t /\ s[k] < t[k] };
    assert { slt t u -> l = length t /\ l < length u \/ l < length t /\ l < length u /\ t[l] < u[l] };
    let m = if k < l then k else l in
    assert { sdiff s u m }
'''

PRE = STR + r'''
  use seq.Occ
  type step = tup2 identifier int
  function steps (p : atnpath) : seq step = p.atnpath__base
  function nm (s : step) : seq int = s.t20.identifier__m_id
  (* ---- order of paths: shorter first, then at the first differing step by name, then by index *)
  predicate estep (a b : step) = nm a = nm b /\ a.t21 = b.t21
  predicate lstep (a b : step) = slt (nm a) (nm b) \/ (nm a = nm b /\ a.t21 < b.t21)
  predicate agree (p q : seq step) (k : int) = forall j. 0 <= j < k -> estep p[j] q[j]
  predicate plt (p q : atnpath) =
    length (steps p) < length (steps q) \/
    (length (steps p) = length (steps q) /\ exists k. 0 <= k < length (steps p) /\ agree (steps p) (steps q) k /\ lstep (steps p)[k] (steps q)[k])
  predicate peq (p q : atnpath) = length (steps p) = length (steps q) /\ agree (steps p) (steps q) (length (steps p))
  let lemma peq_is_equality (p q : atnpath) : unit
    ensures { [@expl:equal paths are element-wise equal] peq p q <-> p = q }
  = assert { forall a b : step. estep a b -> a.t20 = b.t20 && a = b };
    assert { peq p q -> steps p == steps q };
    assert { peq p q -> p = q };
    assert { p = q -> peq p q }
  let rec ghost first_step (p q : seq step) (k : int) : int
    requires { 0 <= k <= length p /\ length p = length q /\ agree p q k } variant { length p - k }
    ensures { 0 <= result <= length p /\ agree p q result } ensures { result < length p -> not (estep p[result] q[result]) }
  = if k < length p && pure { estep p[k] q[k] } then first_step p q (k + 1) else k
  let lemma plt_total (p q : atnpath) : unit
    ensures { [@expl:the order of paths is total] plt p q \/ plt q p \/ peq p q }
  = if pure { length (steps p) = length (steps q) } then begin
      let k = first_step (pure { steps p }) (pure { steps q }) 0 in
      assert { agree (steps q) (steps p) k };
      if k < length p.atnpath__base then begin let a = pure { (steps p)[k] } in let b = pure { (steps q)[k] } in slt_total (pure { nm a }) (pure { nm b });
        assert { lstep a b \/ lstep b a } end end
  let lemma plt_irreflexive (p q : atnpath) : unit
    requires { peq p q } ensures { [@expl:the order of paths is strict] not (plt p q) }
  = assert { forall k. 0 <= k < length (steps p) -> lstep (steps p)[k] (steps q)[k] -> slt (nm (steps p)[k]) (nm (steps p)[k]) \/ (steps p)[k].t21 < (steps q)[k].t21 }
  let lemma lstep_transitive (a b c : step) : unit
    requires { lstep a b \/ estep a b } requires { lstep b c \/ estep b c } ensures { lstep a b \/ lstep b c -> lstep a c } ensures { lstep a c \/ estep a c }
  = ()
  let lemma plt_transitive (p q r : atnpath) : unit
    requires { plt p q /\ plt q r } ensures { [@expl:the order of paths is transitive] plt p r }
  = if pure { length (steps p) = length (steps q) /\ length (steps q) = length (steps r) } then begin
      let k = first_step (pure { steps p }) (pure { steps q }) 0 in let l = first_step (pure { steps q }) (pure { steps r }) 0 in
      assert { forall j. 0 <= j < length (steps p) -> agree (steps p) (steps q) j -> lstep (steps p)[j] (steps q)[j] -> not (estep (steps p)[j] (steps q)[j]) && j = k };
      assert { forall j. 0 <= j < length (steps q) -> agree (steps q) (steps r) j -> lstep (steps q)[j] (steps r)[j] -> not (estep (steps q)[j] (steps r)[j]) && j = l };
      let m = if k < l then k else l in
      assert { agree (steps p) (steps r) m };
      lstep_transitive (pure { (steps p)[m] }) (pure { (steps q)[m] }) (pure { (steps r)[m] });
      assert { lstep (steps p)[m] (steps r)[m] } end
  let lemma plt_asymmetric (p q : atnpath) : unit
    requires { plt p q } ensures { [@expl:the order of paths is asymmetric] not (plt q p) }
  = if pure { plt q p } then begin plt_transitive p q p; plt_irreflexive p p end
  (* ---- hash values *)
  function step_hash (s : step) : int = str_hash (nm s) + s.t21
  function path_hash (s : seq step) (n : int) : int
  axiom path_hash_0 : forall s. path_hash s 0 = 0
  axiom path_hash_s : forall s n. n >= 0 -> path_hash s (n + 1) = path_hash s n + step_hash s[n]
  (* ---- chains *)
  function els (c : pchain) : seq pelem = c.pchain__base
  predicate same_decision (a b : pelem) = a.pelem__m_id.identifier__m_id = b.pelem__m_id.identifier__m_id /\ a.pelem__m_index = b.pelem__m_index
  (* position of the first decision on which the two chains differ *)
  predicate split (p q : pchain) (i : int) =
    0 <= i < length (els p) /\ i < length (els q) /\ same_decision (els p)[i] (els q)[i] /\ (els p)[i].pelem__m_priority <> (els q)[i].pelem__m_priority /\
    (forall j. 0 <= j < i -> same_decision (els p)[j] (els q)[j] -> (els p)[j].pelem__m_priority = (els q)[j].pelem__m_priority)
  predicate better (p q : pchain) = exists i. split p q i /\ (els p)[i].pelem__m_priority < (els q)[i].pelem__m_priority
  let lemma split_unique (p q : pchain) (i j : int) : unit
    requires { split p q i /\ split p q j } ensures { i = j } = ()
  let lemma better_asymmetric (p q : pchain) : unit
    requires { better p q } ensures { [@expl:superior excludes inferior] not (better q p) }
  = assert { forall i. split p q i -> split q p i }; assert { forall i. split q p i -> split p q i }
  predicate celt (a b : celem) = plt a.celem__m_path b.celem__m_path \/ (peq a.celem__m_path b.celem__m_path /\ a.celem__m_color < b.celem__m_color)
  let lemma celt_total (a b : celem) : unit
    ensures { [@expl:the order of closure elements is total] celt a b \/ celt b a \/ (peq a.celem__m_path b.celem__m_path /\ a.celem__m_color = b.celem__m_color) }
  = plt_total a.celem__m_path b.celem__m_path
  let lemma celt_transitive (a b c : celem) : unit
    requires { celt a b /\ celt b c } ensures { [@expl:the order of closure elements is transitive] celt a c }
  = peq_is_equality a.celem__m_path b.celem__m_path; peq_is_equality b.celem__m_path c.celem__m_path
  let lemma celt_irreflexive (a : celem) : unit ensures { not (celt a a) } = plt_irreflexive a.celem__m_path a.celem__m_path
  predicate is_step (id : identifier) (index : int) (s : step) = nm s = id.identifier__m_id /\ s.t21 = index
  let rec vcount_if (p : 'a -> bool) (s : seq 'a) : int
    variant { length s }
    ensures { 0 <= result <= length s }
    ensures { result = 0 <-> forall k. 0 <= k < length s -> not (p s[k]) }
    ensures { result = nums p s (length s) }
  = if length s = 0 then 0 else
    let t = s[0 .. length s - 1] in
    let n = vcount_if p t in
    nums_prefix p s t (length s - 1);
    let l = length s - 1 in
    assert { forall k. 0 <= k < l -> s[k] = t[k] };
    n + if p s[length s - 1] then 1 else 0
'''
NUMS = r'''
  function nums (p : 'a -> bool) (s : seq 'a) (n : int) : int
  axiom nums_0 : forall p : 'a -> bool, s. nums p s 0 = 0
  axiom nums_s : forall p : 'a -> bool, s n. n >= 0 -> nums p s (n + 1) = nums p s n + (if p s[n] then 1 else 0)
  let rec ghost nums_prefix (p : 'a -> bool) (s t : seq 'a) (n : int) : unit
    requires { 0 <= n /\ n <= length s /\ n <= length t } requires { forall k. 0 <= k < n -> s[k] = t[k] } variant { n }
    ensures { nums p s n = nums p t n }
  = if n > 0 then begin nums_prefix p s t (n - 1); assert { nums p s (n - 1 + 1) = nums p s (n - 1) + (if p s[n - 1] then 1 else 0) }; assert { nums p t (n - 1 + 1) = nums p t (n - 1) + (if p t[n - 1] then 1 else 0) } end
  let rec ghost nums_same (p q : 'a -> bool) (s : seq 'a) (n : int) : unit
    requires { 0 <= n <= length s } requires { forall k. 0 <= k < n -> (p s[k] <-> q s[k]) } variant { n }
    ensures { nums p s n = nums q s n }
  = if n > 0 then begin nums_same p q s (n - 1); assert { nums p s (n - 1 + 1) = nums p s (n - 1) + (if p s[n - 1] then 1 else 0) }; assert { nums q s (n - 1 + 1) = nums q s (n - 1) + (if q s[n - 1] then 1 else 0) } end
'''

def h_call(ctx, n, args, me):
    """operator() of std::hash<std::wstring>: a function of the text."""
    from cxx2why import V, Ty, par
    v = ctx.E(args[1])
    from cxx2why import strip_ref
    t = ctx.tr.canon(strip_ref(v.ty))
    if t.k == 'vec' and t.args[0].k == 'int': return V('(str_hash %s)' % par(v.code), Ty('int', 'unsigned long'), v.pure, state=v.state)
    return None

ID = 'identifier__m_id'
def functions():
    F = {}
    F['id_eq'] = dict(key='Identifier::operator==(const Identifier &)', logic='function', is_pure=True, ensures=['names are equal when their texts are:: result <-> this.%s = id.%s' % (ID, ID)])
    F['id_eq_str'] = dict(key='Identifier::operator==(const std::wstring &)', ensures=['result <-> this.%s = str' % ID])
    F['id_hash'] = dict(key='operator()(const Identifier &)', ensures=['the hash of a name depends on its text alone:: result = str_hash id.%s' % ID])
    F['id_bool'] = dict(key='Identifier::operator bool', ensures=['result <-> length this.%s > 0' % ID])
    P = 'this.atnpath__base'
    S = '(steps !this)'; O = '(steps (old !this))'
    F['path_push'] = dict(key='ATNPath::push(const Identifier &,int)', ensures=['%s = snoc %s { t20 = id; t21 = index }' % (S, O)])
    F['path_pushp'] = dict(key='ATNPath::push(const std::pair<Identifier, int> &)', ensures=['%s = snoc %s p' % (S, O)])
    F['path_pop'] = dict(key='ATNPath::pop', requires=['length (steps !this) > 0'], ensures=['%s = %s[0 .. length %s - 1]' % (S, O, O)])
    F['path_add'] = dict(key='ATNPath::add', ensures=['extending appends one step:: steps result = snoc (steps this) { t20 = id; t21 = index }'])
    F['path_parent'] = dict(key='ATNPath::parent_path', requires=['length (steps this) > 0'], ensures=['truncating drops the last step:: steps result = (steps this)[0 .. length (steps this) - 1]'])
    F['path_reindex'] = dict(key='ATNPath::replace_index', requires=['length (steps this) > 0'],
        ensures=['re-indexing changes the last index only:: length (steps result) = length (steps this) /\\ (forall k. 0 <= k < length (steps this) - 1 -> (steps result)[k] = (steps this)[k]) /\\ let l = length (steps this) - 1 in (steps result)[l] = { (steps this)[l] with t21 = index }'])
    F['path_leaf'] = dict(key='ATNPath::leaf', requires=['length (steps this) > 0'], ensures=['result = (steps this)[length (steps this) - 1]'])
    F['path_leaf_index'] = dict(key='ATNPath::leaf_index', requires=['length (steps this) > 0'], ensures=['result = (steps this)[length (steps this) - 1].t21'])
    F['path_leaf_id'] = dict(key='ATNPath::leaf_id', requires=['length (steps this) > 0'], ensures=['result = (steps this)[length (steps this) - 1].t20'])
    F['path_depth'] = dict(key='ATNPath::depth', ensures=['result = length (steps this)'])
    F['path_eq'] = dict(key='ATNPath::operator==', ensures=['path equality is element-wise equality:: result <-> peq this path'])
    F['path_compare'] = dict(key='ATNPath::compare', ensures=['negative exactly when before:: result < 0 <-> plt this p', 'positive exactly when after:: result > 0 <-> plt p this', 'zero exactly when equal:: result = 0 <-> peq this p'],
        loops=[dict(inv=['0 <= @ix <= length (steps this)', 'length (steps this) = length (steps p)', 'agree (steps this) (steps p) @ix', 'agree (steps p) (steps this) @ix'], var=['length (steps this) - @ix'])])
    F['path_hash_fn'] = dict(key='ATNPath::hash', ensures=['the hash of a path depends on its steps alone:: result = path_hash (steps this) (length (steps this))'],
        loops=[dict(inv=['!ret = path_hash (steps this) @ix'])])
    F['path_find'] = dict(key='ATNPath::find', ensures=['a step is found exactly when it is in the path:: result <-> exists k. 0 <= k < length (steps this) /\\ is_step id index (steps this)[k]'])
    F['path_count'] = dict(key='ATNPath::count', ensures=['counts the occurrences of a step:: result = nums (is_step id index) (steps this) (length (steps this))'])
    F['pe_lt'] = dict(key='PriorityChainElement::operator<', ensures=['result <-> same_decision this e /\\ this.pelem__m_priority < e.pelem__m_priority'])
    F['pe_gt'] = dict(key='PriorityChainElement::operator>', ensures=['result <-> same_decision this e /\\ this.pelem__m_priority > e.pelem__m_priority'])
    F['pc_compare'] = dict(key='PriorityChain::compare', ensures=['negative exactly when better ranked at the first differing decision:: result < 0 <-> better this chain', 'positive exactly when worse ranked there:: result > 0 <-> better chain this'],
        loops=[dict(inv=['0 <= @ix <= length (els this)', '@ix <= length (els chain)', 'forall j. 0 <= j < @ix -> same_decision (els this)[j] (els chain)[j] -> (els this)[j].pelem__m_priority = (els chain)[j].pelem__m_priority'], var=['length (els this) - @ix'])])
    F['pc_sup'] = dict(key='PriorityChain::is_superior_to', ensures=['superior exactly when better ranked at the first differing decision:: result <-> better this chain'])
    F['pc_inf'] = dict(key='PriorityChain::is_inferior_to', ensures=['inferior is the converse of superior:: result <-> better chain this'])
    F['pc_add'] = dict(key='PriorityChain::add', ensures=['extending a chain appends one decision:: els result = snoc (els this) { pelem__m_id = id; pelem__m_index = index; pelem__m_priority = pr }'])
    F['pc_push'] = dict(key='PriorityChain::push', ensures=['els !this = snoc (els (old !this)) { pelem__m_id = id; pelem__m_index = index; pelem__m_priority = pr }'])
    F['ce_lt'] = dict(key='CATNClosureElement::operator<', ensures=['closure elements are ordered by path then colour:: result <-> celt this e'])
    F['ce_eq'] = dict(key='CATNClosureElement::operator==', ensures=['result <-> peq this.celem__m_path e.celem__m_path /\\ this.celem__m_color = e.celem__m_color'])
    F['path_hash_std'] = dict(key='operator()(const ATNPath &)', ensures=['result = path_hash (steps path) (length (steps path))'])
    F['path_eq_std'] = dict(key='operator()(const ATNPath &,const ATNPath &)', ensures=['hashed containers compare paths by equality:: result <-> peq x y'])
    F['id_eq_std'] = dict(key='operator()(const Identifier &,const Identifier &)', ensures=['hashed containers compare names by equality:: result <-> x.%s = y.%s' % (ID, ID)])
    F['pair_eq_std'] = dict(key='operator()(const std::pair<ATNPath,int> &,const std::pair<ATNPath,int> &)', ensures=['result <-> peq x.t20 y.t20 /\\ x.t21 = y.t21'])
    F['pair_hash'] = dict(key='operator()(const std::pair<ATNPath,int> &)', ensures=['result = path_hash (steps p.t20) (length (steps p.t20)) + p.t21'])
    return F

def spec():
    return dict(
        tu='''#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
''',
        files=['Util.hpp', 'Identifier.hpp', 'CompositeATN.hpp', 'LookaheadDFA.hpp'],
        typenames={'Identifier': 'identifier', 'ATNPath': 'atnpath', 'PriorityChainElement': 'pelem', 'PriorityChain': 'pchain', 'CATNClosureElement': 'celem'},
        types=['Identifier', 'ATNPath', 'PriorityChainElement', 'PriorityChain', 'CATNClosureElement'],
        preamble=NUMS + PRE, hooks={'operator()': h_call}, functions=functions())
