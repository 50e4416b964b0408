#!/usr/bin/env python3
"""Writes contracts/le_fixed.sc (the contracts of le/src/fixed.rs): tuples and
arrays of every size get the same contract."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
o.append('''//@ full-names
//@ expand impl_fixed_array
//@ expand impl_tuple
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest, vecarray};
use crate::le_model::*;
use crate::le_vecs::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::{grown, built, lemma_grown_refl, lemma_grown_trans};
use crate::vec_model::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_slice_of, axiom_array_len, axiom_vecarray_len};
''')
ELEM = open(os.path.join(HERE, 'contracts', 'le_fixed.part')).read()
o.append(ELEM)
names = 'abcdefghi'
for n in range(2, 10):
    T = [c.upper() for c in names[:n]]
    key = '(' + ','.join(T) + ')'
    val = 'vals%d' % n
    encs = ', '.join('self.%d.enc::<K>()' % i for i in range(n))
    al = lambda f: ' && '.join('self.%d.%s' % (i, f) for i in range(n))
    o.append(f'''//@ impl IntoTree for {key}
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {{ encv::<K>(seq![{encs}], None) }}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {{
		&&& {al('stored::<K>(s)')}
		&&& storedv::<K>(s, seq![{encs}], None)
	}}
	open spec fn fits(&self) -> bool {{ {al('fits()')} }}
	open spec fn addr(&self) -> bool {{ {al('addr()')} }}
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {{
		{' '.join('self.%d.stored_more::<K>(s, t);' % i for i in range(n))}
		lemma_storedv_more::<K>(s, t, seq![{encs}], None);
	}}
//@ fn IntoTree for {key}::into_tree
//@ start
	let ghost d0 = db.dbv();
{''.join(f"	let ghost mut d{i+1} = d0;{chr(10)}" for i in range(n))}	proof {{ lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }}
''')
    for i in range(n):
        more = ''.join(f'\n\t\tif d0.retains {{ {names[j]}.stored_more::<DB::Construct>(d{i}.store, d{i+1}.store); }}' for j in range(i))
        o.append(f'''//@ after-stmt #{i} vector.push
	proof {{
		d{i+1} = db.dbv();
		lemma_grown_trans(d0, d{i}, d{i+1});{more}
	}}
''')
    dm = ''.join(f'\n\t\t\tself.{j}.stored_more::<DB::Construct>(d{n}.store, db.dbv().store);' for j in range(n))
    vs = ', '.join('self.%d.enc::<DB::Construct>()' % i for i in range(n))
    o.append(f'''//@ tail-let r_
	proof {{
		assert(vector@ =~= seq![{vs}]);
		assert(within({n}, None) && vdep({n}, None) == depth_of({n}));
		if r_ is Ok {{ lemma_grown_trans(d0, d{n}, db.dbv()); }}
		if r_ is Ok && d0.retains {{{dm}
		}}
	}}
//@ impl FromTree for {key}
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {{
{chr(10).join(f"		&&& (elem(s, root, {n}, None, {i}) matches Some(v) && {T[i]}::decodes::<K>(s, v, x.{i}))" for i in range(n))}
	}}
	open spec fn limits() -> bool {{ {' && '.join(t + '::limits()' for t in T)} }}
//@ fn FromTree for {key}::from_tree
//@ start
	proof {{ lemma2_to64(); lemma2_to64_rest(); }}
''')
open(os.path.join(HERE, 'contracts', 'le_fixed.sc'), 'w').write(''.join(o))
