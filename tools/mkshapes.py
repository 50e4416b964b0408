#!/usr/bin/env python3
"""Writes contracts/le_shapes.sc (the contracts of the code the derive macros
generate for shapes/src/values.rs)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name -> (generics, [(field, type, compact)]); enums: [(variant, kind, fields)]
A, B, C, D, E = 'ABCDE'
STRUCTS = [
    ('Empty', [], []),
    ('One', [A], [('a', A, 0)]),
    ('Pair', [A, B], [('0', A, 0), ('1', B, 0)]),
    ('Three', [A, B, C], [('a', A, 0), ('b', B, 0), ('c', C, 0)]),
    ('Four', [A, B, C, D], [('w', D, 0), ('x', A, 0), ('y', C, 0), ('z', B, 0)]),
    ('Nine', list('ABCDEFGHI'), [(x.lower() + '_', x, 0) for x in 'ABCDEFGHI']),
    ('Five', [A, B, C, D, E], [(str(i), 'ABCDE'[i], 0) for i in range(5)]),
    ('Packed', [A, B, C], [('a', A, 0), ('b', B, 1), ('c', C, 0)]),
    ('Bits', [A, B], [('0', A, 1), ('1', B, 0)]),
]
ENUMS = [
    ('Choice', [A], [('Just', 't', [('0', A, 0)])]),
    ('Mixed', [A, B, C], [
        ('Nothing', 'u', []),
        ('Named', 'n', [('a', A, 0), ('b', B, 0)]),
        ('Tuple', 't', [('0', C, 0), ('1', A, 0), ('2', B, 0)]),
        ('Single', 't', [('0', B, 0)]),
        ('Last', 'u', []),
        ('Braced', 'n', []),
        ('Round', 't', []),
    ]),
    ('Dense', [A, B], [
        ('Plain', 'n', [('a', A, 0)]),
        ('Compact', 'n', [('b', B, 0), ('a', A, 1)]),
    ]),
]
o = ['''//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
/// The crate the generated code names.
pub mod bm_le {
	pub use crate::{le_lib::*, le_basic::*, le_elemental_fixed::*, le_fixed::*, le_elemental_variable::*, le_variable::*};
	pub mod utils {
		pub use crate::utils::vector_tree;
		pub use crate::le_utils::{mix_in_type, decode_with_type};
	}
}
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest, vecarray};
use crate::le_model::*;
use crate::le_vecs::*;
use crate::le_lib::vb;
use crate::traits::EmptyConstruct;
use crate::util_model::{grown, built, lemma_grown_refl, lemma_grown_trans};
use crate::vec_model::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_slice_of};
//@ item use bm_le::{IntoTree, FromTree};
//@ replace
use bm_le::{IntoTree, FromTree, CompatibleConstruct, Compact, CompactRef, Value};
''']

def ref(x, f):
    return f'CompactRef(&{x})' if f[2] else x

def call(x, f, what):
    return f'{ref(x, f)}.{what}'

def dec(f, root, i, n, x):
    ty = f'Compact::<{f[1]}>' if f[2] else f[1]
    if f[2]:
        return f'(elem(s, {root}, {n}, None, {i}) matches Some(v) && <Compact<{f[1]}> as FromTree>::decodes::<K>(s, v, Compact({x})))'
    return f'(elem(s, {root}, {n}, None, {i}) matches Some(v) && <{f[1]} as FromTree>::decodes::<K>(s, v, {x}))'

def lim(f):
    return f'<Compact<{f[1]}> as FromTree>::limits()' if f[2] else f'<{f[1]} as FromTree>::limits()'

def conj(xs):
    return ' && '.join(xs) or 'true'

for name, gen, fs in STRUCTS:
    key = name + (f"<{','.join(gen)}>" if gen else '')
    n = len(fs)
    el = lambda K: 'Seq::<Value>::empty()' if n == 0 else 'seq![' + ', '.join(call(f'self.{f[0]}', f, f'enc::<{K}>()') for f in fs) + ']'
    al = lambda w: conj([call(f'self.{f[0]}', f, w) for f in fs])
    o.append(f'''//@ impl IntoTree for {key}
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {{ encv::<K>({el('K')}, None) }}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {{
		&&& {al('stored::<K>(s)')}
		&&& storedv::<K>(s, {el('K')}, None)
	}}
	open spec fn fits(&self) -> bool {{ {al('fits()')} }}
	open spec fn addr(&self) -> bool {{ {al('addr()')} }}
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {{
		{' '.join(call(f'self.{f[0]}', f, 'stored_more::<K>(s, t);') for f in fs)}
		lemma_storedv_more::<K>(s, t, {el('K')}, None);
	}}
//@ fn IntoTree for {key}::into_tree
//@ start
	let ghost d0 = db.dbv();
{''.join(f"	let ghost mut d{i+1} = d0;{chr(10)}" for i in range(n))}	proof {{ lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }}
''')
    for i in range(n):
        more = ''.join(f'''\n\t\tif d0.retains {{ {call(f'self.{fs[j][0]}', fs[j], f'stored_more::<DB::Construct>(d{i}.store, d{i+1}.store);')} }}''' for j in range(i))
        o.append(f'''//@ after-stmt #{i} vector.push
	proof {{
		d{i+1} = db.dbv();
		lemma_grown_trans(d0, d{i}, d{i+1});{more}
	}}
''')
    dm = ''.join(f'''\n\t\t\t{call(f'self.{f[0]}', f, f'stored_more::<DB::Construct>(d{n}.store, db.dbv().store);')}''' for f in fs)
    o.append(f'''//@ tail-let r_
	proof {{
		assert(vector@ =~= {el('DB::Construct')});
		assert(within({n}, None) && vdep({n}, None) == depth_of({n}));
		if r_ is Ok {{ lemma_grown_trans(d0, d{n}, db.dbv()); }}
		if r_ is Ok && d0.retains {{{dm}
		}}
	}}
//@ impl FromTree for {key}
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {{
{chr(10).join(f"		&&& {dec(f, 'root', i, n, f'x.{f[0]}')}" for i, f in enumerate(fs)) or '		root == dflt::<Value>()'}
	}}
	open spec fn limits() -> bool {{ {conj([lim(f) for f in fs])} }}
//@ fn FromTree for {key}::from_tree
//@ start
	proof {{ lemma2_to64(); lemma2_to64_rest(); }}
''')
post = []
NL = '\n'
for name, gen, vs in ENUMS:
    key = name + f"<{','.join(gen)}>"
    low = name.lower()
    bounds = list(dict.fromkeys(f'Compact<{f[1]}>: FromTree' if f[2] else f'{f[1]}: FromTree' for v in vs for f in v[2]))
    def pat(v):
        n, k, fs = v
        if k == 'u':
            return f'{name}::{n}'
        if k == 't':
            return f'{name}::{n}(' + ', '.join('v' + f[0] for f in fs) + ')'
        return f'{name}::{n} {{ ' + ', '.join(f[0] for f in fs) + ' }'
    nm = lambda v, f: 'v' + f[0] if v[1] == 't' else f[0]
    # an encoder's values are references here
    cl = lambda v, f, w: f'CompactRef({nm(v, f)}).{w}' if f[2] else f'{nm(v, f)}.{w}'
    el = lambda v, K: 'Seq::<Value>::empty()' if not v[2] else 'seq![' + ', '.join(cl(v, f, f'enc::<{K}>()') for f in v[2]) + ']'
    al = lambda v, w: conj([cl(v, f, w) for f in v[2]])
    arms = lambda g: NL.join(f'\t\t\t{pat(v)} => {g(i, v)},' for i, v in enumerate(vs))
    def isarm(i, v):
        ds = [dec(f, 'l', j, len(v[2]), nm(v, f)) for j, f in enumerate(v[2])] or ['l == dflt::<Value>()']
        return f'ty == {i} && ' + conj(ds)
    post.append(f"""/// What the tree at `l` with the selector `ty` encodes.
pub open spec fn {low}_is<{', '.join(gen)}, K: CompatibleConstruct>(s: Store, l: Value, ty: nat, x: {key}) -> bool where {', '.join(bounds)} {{
	match x {{
{arms(isarm)}
	}}
}}
/// The tree at `l` with the selector `ty` encodes nothing.
pub open spec fn {low}_isnt<{', '.join(gen)}, K: CompatibleConstruct>(s: Store, l: Value, ty: nat) -> bool where {', '.join(bounds)} {{
	forall|x: {key}| !#[trigger] {low}_is::<{', '.join(gen)}, K>(s, l, ty, x)
}}
""")
    o.append(f"""//@ impl IntoTree for {key}
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {{
		match self {{
{arms(lambda i, v: f"enc2::<K>(encv::<K>({el(v, 'K')}, None), {i})")}
		}}
	}}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {{
		match self {{
{arms(lambda i, v: f"{al(v, 'stored::<K>(s)')} && storedv::<K>(s, {el(v, 'K')}, None) && stored2::<K>(s, encv::<K>({el(v, 'K')}, None), {i})")}
		}}
	}}
	open spec fn fits(&self) -> bool {{
		match self {{
{arms(lambda i, v: al(v, 'fits()'))}
		}}
	}}
	open spec fn addr(&self) -> bool {{
		match self {{
{arms(lambda i, v: al(v, 'addr()'))}
		}}
	}}
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {{
		match self {{
{arms(lambda i, v: "{ " + ' '.join(cl(v, f, 'stored_more::<K>(s, t);') for f in v[2]) + f" lemma_storedv_more::<K>(s, t, {el(v, 'K')}, None); lemma_stored2_more::<K>(s, t, encv::<K>({el(v, 'K')}, None), {i}); }}")}
		}}
	}}
//@ fn IntoTree for {key}::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut dv = d0;
{''.join(f"	let ghost mut d{i+1} = d0;{NL}" for i in range(max(len(v[2]) for v in vs)))}	proof {{ lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); lemma_grown_refl(d0); }}
""")
    k = 0
    for i, v in enumerate(vs):
        fs = v[2]
        # the values as the generated arm names them
        an = lambda f: f'variant.{f[0]}' if v[1] == 't' else f[0]
        ac = lambda f, w: f'CompactRef({an(f)}).{w}' if f[2] else f'{an(f)}.{w}'
        ae = 'Seq::<Value>::empty()' if not fs else 'seq![' + ', '.join(ac(f, 'enc::<DB::Construct>()') for f in fs) + ']'
        if not fs:
            o.append(f"""//@ after-stmt #{i} let mut vector
	proof {{ assert(vector@ =~= {ae}); assert(within(0, None) && vdep(0, None) == depth_of(0)); }}
""")
        for j in range(len(fs)):
            more = ''.join(f"{NL}\t\tif d0.retains {{ {ac(fs[l], f'stored_more::<DB::Construct>(d{j}.store, d{j+1}.store);')} }}" for l in range(j))
            last = f"""
		assert(vector@ =~= {ae});
		assert(within({len(fs)}, None) && vdep({len(fs)}, None) == depth_of({len(fs)}));""" if j == len(fs) - 1 else ''
            pre = 'd0' if j == 0 else f'd{j}'
            o.append(f"""//@ after-stmt #{k} vector.push
	proof {{
		d{j+1} = db.dbv();
		lemma_grown_trans(d0, {pre}, d{j+1});{more}{last}
	}}
""")
            k += 1
        dm = ' '.join(ac(f, f'stored_more::<DB::Construct>(d{len(fs)}.store, dv.store);') for f in fs)
        o.append(f"""//@ after-stmt #{i} let vector_root
	proof {{
		dv = db.dbv();
		lemma_grown_trans(d0, d{len(fs)}, dv);
		if d0.retains {{ {dm} }}
	}}
""")
    o.append(f"""//@ tail-let r_
	proof {{
		if r_ is Ok {{
			lemma_grown_trans(d0, dv, db.dbv());
			if d0.retains {{
				match self {{
{arms(lambda i, v: "{ " + ' '.join(cl(v, f, 'stored_more::<DB::Construct>(dv.store, db.dbv().store);') for f in v[2]) + f" lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, {el(v, 'DB::Construct')}, None); }}")}
				}}
			}}
		}}
	}}
//@ impl FromTree for {key}
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {{
		let (l, r) = (elem(s, root, 2, None, 0), elem(s, root, 2, None, 1));
		l is Some && r is Some && {low}_is::<{', '.join(gen)}, K>(s, l->0, le_nat(vb(r->0)), x)
	}}
	open spec fn limits() -> bool {{ {conj(list(dict.fromkeys(lim(f) for v in vs for f in v[2])))} }}
//@ fn FromTree for {key}::from_tree
//@ start
	proof {{ lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); }}
//@ closure 0
param 0 &Value
param 1 &mut DB
param 2 usize
-> (r: Result<{key}, bm_le::Error<DB::Error>>)
	requires old(db).wf(), Self::limits(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> {low}_is::<{', '.join(gen)}, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && {low}_isnt::<{', '.join(gen)}, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat),
//@ tail-let r_
	proof {{
		if r_ is Err && r_->Err_0 is CorruptedDatabase {{
			let (a, b) = (elem(db.dbv().store, *root, 2, None, 0), elem(db.dbv().store, *root, 2, None, 1));
			if a is Some && b is Some {{
				let t = le_nat(vb(b->0));
				if t <= usize::MAX {{ assert((t as usize) as nat == t); }}
				assert({low}_isnt::<{', '.join(gen)}, DB::Construct>(db.dbv().store, a->0, t));
			}}
		}}
	}}
""")
o.append('//@ postlude\n' + ''.join(post))
open(os.path.join(HERE, 'contracts', 'le_shapes.sc'), 'w').write(''.join(o))

# ------------------------------------------------------------ partial items
PARTS = [
    ('Nil', []),
    ('Inner', [('x', 'u8')]),
    ('Two', [('s', 'u64'), ('d', 'Inner')]),
    ('Fields', [('a', 'u64'), ('b', 'u16'), ('c', 'Inner')]),
    ('Five', [('v', 'u128'), ('w', 'Two'), ('x', 'u8'), ('y', 'u8'), ('z', 'Nil')]),
    ('Nine', [(x, 'u16') for x in 'abcd'] + [('e', 'Two')] + [(x, 'u64') for x in 'fghi']),
    ('Outer', [('f', 'Fields'), ('i', 'Inner'), ('g', 'Fields'), ('n', 'u128'), ('t', 'u32'), ('z', 'Nil'), ('q', 'Two')]),
]
o = ['''//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
/// The crate the generated code names.
pub mod bm_le {
	pub use crate::{le_lib::*, le_partial::*};
}
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_partial::{lemma_turn_moves, PartialItem};
use crate::le_partial_thm::*;
use crate::traits::EmptyConstruct;
use crate::vec_model::*;
use crate::index::IndexSelection;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view};
//@ item use bm_le::Partialable;
//@ replace
use bm_le::{Partialable, CompatibleConstruct, Value, IntoTree, PartialIndex, PartialValue, Place};
use crate::le_partial::{local, framed};
''']
post = []
P = 'dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value'
for name, fs in PARTS:
    n = len(fs)
    st = ['d0, r0'] + [f'm{i}, k{i}' for i in range(1, n)] + ['d1, r1']
    vars_ = ', '.join(f'm{i}: DbView<K>, k{i}: Value' for i in range(1, n))
    mids = ''.join(f' && m{i}.wf() && m{i}.same_flags(d0)' for i in range(1, n))
    if n == 0:
        fl = 'd1 == d0 && r1 == r0'
    elif n == 1:
        fl = f'self.{fs[0][0]}.flushed::<K>(dangling, d0, r0, d1, r1)'
    else:
        steps = ' && '.join(('#[trigger] ' if i < n - 1 or n == 2 else '#[trigger] ') + f'self.{f[0]}.flushed::<K>(dangling, {st[i]}, {st[i+1]})' for i, f in enumerate(fs))
        fl = f'exists|{vars_}| {steps}{mids}'
    al = lambda g: conj([g(i, f) for i, f in enumerate(fs)])
    names = ', '.join(f'm{i}, k{i}' for i in range(1, n))
    pick = f'let ({names}) = choose|{vars_}| {steps}{mids};' if n > 1 else ''
    me = lambda e: '\n\t\t'.join(x for x in e if x)
    moves = me([pick] + sum([[f'self.{f[0]}.flush_moves::<K>(dangling, {st[i]}, {st[i+1]});'] + ([f'lemma_moved_trans(dangling, d0, r0, {st[i]}, {st[i+1]});'] if i else []) for i, f in enumerate(fs)], [])) or 'lemma_moved_refl(dangling, d0, r0);'
    idle = me([pick] + [f'self.{f[0]}.idle_flush::<K>(dangling, {st[i]}, {st[i+1]});' for i, f in enumerate(fs)])
    loc = me([pick, 'let place = index.place(d0.store, r0);', 'lemma_local_refl(place, d0, r0);'] + sum([[
        f'lemma_field_local::<_, K>(self.{f[0]}, index, {i}, {n}, dangling, d0, r0, {st[i]}, {st[i+1]});',
        f'self.{f[0]}.flush_moves::<K>(dangling, {st[i]}, {st[i+1]});'] for i, f in enumerate(fs)], []))
    o.append(f'''//@ impl PartialItem for Partial{name}
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool {{ {al(lambda i, f: f'self.{f[0]}.bound_to(field_at(index, {i}, {n}))')} }}
	open spec fn okp(&self) -> bool {{ {al(lambda i, f: f'self.{f[0]}.okp()')} }}
	open spec fn ready(&self) -> bool {{ {al(lambda i, f: f'self.{f[0]}.ready()')} }}
	open spec fn idle(&self) -> bool {{ {al(lambda i, f: f'self.{f[0]}.idle()')} }}
	open spec fn flushed<K: CompatibleConstruct>(&self, {P}) -> bool {{ {fl} }}
	proof fn idle_flush<K: CompatibleConstruct>(&self, {P}) {{
		{idle}
	}}
	proof fn flush_moves<K: CompatibleConstruct>(&self, {P}) {{
		{moves}
	}}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, {P}) {{
		{loc}
	}}
//@ fn PartialItem for Partial{name}::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
''')
    for i in range(n):
        if i < n - 1:
            o.append(f'''//@ after-stmt #{i} bm_le::PartialItem::flush
	let ghost m{i+1} = db.dbv();
	let ghost k{i+1} = raw.root;
''')
        else:
            o.append(f'''//@ after-stmt #{i} bm_le::PartialItem::flush
	proof {{
		let (d1, r1) = (db.dbv(), raw.root);
{chr(10).join(f"		assert(old(self).{f[0]}.flushed::<DB::Construct>(R::dangling(), {st[j]}, {st[j+1]}));" for j, f in enumerate(fs))}
	}}
''')
    # the theorem
    if n:
        basic = lambda t: t[0] == 'u'
        body = me([pick.replace('self.', 'x.')] + sum([[
            f'let x{i} = theorem_field_done::<_, K>(x.{f[0]}, index, {i}, dangling, {st[i]}, {st[i+1]}, p, v{i});',
            f'let v{i+1} = v{i}.update({i}, x{i});'] + ([f'theorem_value_done::<{f[1]}, K>(x.{f[0]}, dangling, p + bits_be({i}, depth_of({n})), v{i}[{i}], x{i});'] if basic(f[1]) else []) for i, f in enumerate(fs)], []))
        done = '\n'.join('\t\t' + (f'w[{i}] == (match x.{f[0]}.value {{ Some(y) => y.enc::<K>(), None => v0[{i}] }}),' if basic(f[1]) else
                                  f'item_done::<Partial{f[1]}, K>(x.{f[0]}, field_at(index, {i}, {n}), dangling, p + bits_be({i}, depth_of({n})), v0[{i}], w[{i}]),') for i, f in enumerate(fs))
        post.append(f'''/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_{name.lower()}_flush<K: CompatibleConstruct>(x: Partial{name}, index: PartialIndex, {P}, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == {n}, p.len() + depth_of({n}) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == {n},
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
{done}
{{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		{body}
		v{n}
}}
''')
o.append('//@ postlude\n' + ''.join(post))
open(os.path.join(HERE, 'contracts', 'le_parts.sc'), 'w').write(''.join(o))

# ---------------------------------------------------------------- round trips
o = ['''//! The round trip of the shapes with derived encodings. Written by
//! tools/mkshapes.py.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use crate::model::*;
use crate::util_model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_lib::*;
use crate::le_vecs::*;
use crate::le_basic::*;
use crate::le_fixed::*;
use crate::le_elemental_fixed::*;
use crate::le_elemental_variable::*;
use crate::le_variable::*;
use crate::le_thm::*;
use crate::le_shapes::*;
use crate::traits::*;
verus! {
broadcast use {group_value, group_le_value, axiom_slice_of, crate::stubs::axiom_array_len, axiom_vecarray_len, crate::traits::wf_has_view};

/// No values encode as the empty value.
proof fn lemma_hollow<K: CompatibleConstruct>()
	ensures encv::<K>(Seq::<Value>::empty(), None) == dflt::<Value>(),
{ crate::vec_model::lemma_depth_of(0, 0); }
''']
# the compact forms the theorems are stated for: type, further generics
PACKS = [('MaxVec<u8, ML>', 'ML: Unsigned'), ('MaxVec<bool, ML>', 'ML: Unsigned'), ('GenericArray<u64, L>', 'L: ArrayLength<u64>'), ('VecArray<bool, L>', 'L: Unsigned')]
def body(name, fs, what, me, other, refs):
    """The proof for one list of fields: `me`/`other` name a field."""
    n = len(fs)
    if n == 0:
        return ''
    e = lambda f: (f'CompactRef({"" if refs else "&"}{me(f)}).enc::<K>()' if f[2] else f'{me(f)}.enc::<K>()')
    out = [f'let v = seq![{", ".join(e(f) for f in fs)}];', 'lemma_storedv::<K>(s, v, None);', 'let k = encv::<K>(v, None);']
    for i, f in enumerate(fs):
        out.append(f'assert(v[{i}] == {e(f)});')
        out.append(f'assert(elem(s, k, v.len(), None, {i}) == Some(v[{i}]));')
        m = (lambda x: f'Compact({"*" if refs else ""}{x})') if f[2] else (lambda x: x)
        y = (lambda x: f'Compact({"*" if refs else ""}{x})') if f[2] else (lambda x: ('*' if refs else '') + x)
        out.append(f'{m(me(f))}.round::<K>(s, {y(other(f))});' if what == 'round' else f'{m(me(f))}.complete::<K>(s);')
    return '\n\t\t\t'.join(out)
def sm(f, a, b, refs):
    return f'Compact({"*" if refs else ""}{a}).same(&Compact({"*" if refs else ""}{b}))' if f[2] else f'{a}.same({"" if refs else "&"}{b})'
def versions(gen, fs):
    """The generics and arguments of each version of the shape."""
    packed = [f[1] for f in fs if f[2]]
    if not packed:
        return [(', '.join(f'{g}: RoundTrip' for g in gen), ', '.join(gen))]
    return [(', '.join([f'{g}: RoundTrip' for g in gen if g not in packed] + [b]), ', '.join(t if g in packed else g for g in gen)) for t, b in PACKS]
for name, gen, fs in STRUCTS:
    for g, a in versions(gen, fs):
        key = f'{name}<{a}>' if a else name
        o.append(f'''impl{f'<{g}>' if g else ''} RoundTrip for {key} {{
	open spec fn same(&self, y: &Self) -> bool {{ {conj([sm(f, f'self.{f[0]}', f'y.{f[0]}', False) for f in fs])} }}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {{
			{body(name, fs, 'round', lambda f: f'self.{f[0]}', lambda f: f'y.{f[0]}', False)}
	}}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {{
			{body(name, fs, 'complete', lambda f: f'self.{f[0]}', None, False) or 'lemma_hollow::<K>();'}
	}}
}}
''')
for name, gen, vs in ENUMS:
    for g, a in versions(gen, [f for v in vs for f in v[2]]):
        def pat(v, p):
            n, k, fs = v
            if k == 'u':
                return f'{name}::{n}'
            if k == 't':
                return f'{name}::{n}(' + ', '.join(p + f[0] for f in fs) + ')'
            return f'{name}::{n} {{ ' + ', '.join(f'{f[0]}: {p}{f[0]}' for f in fs) + ' }'
        arm = lambda i, v, what: f'''			({pat(v, 'x')}, {pat(v, 'y')}) => {{
			lemma_two::<K>(s, encv::<K>({'seq![' + ', '.join((f'CompactRef(x{f[0]}).enc::<K>()' if f[2] else f'x{f[0]}.enc::<K>()') for f in v[2]) + ']' if v[2] else 'Seq::<Value>::empty()'}, None), {i});
			{body(name, v[2], what, lambda f: f'x{f[0]}', lambda f: f'y{f[0]}', True)}
			}},
'''
        o.append(f'''impl<{g}> RoundTrip for {name}<{a}> {{
	open spec fn same(&self, y: &Self) -> bool {{
		match (self, y) {{
{NL.join(f"			({pat(v, 'x')}, {pat(v, 'y')}) => {conj([sm(f, 'x' + f[0], 'y' + f[0], True) for f in v[2]])}," for v in vs)}
{'			_ => false,' if len(vs) > 1 else ''}
		}}
	}}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {{
		lemma_maxes();
		match (self, &y) {{
{''.join(arm(i, v, 'round') for i, v in enumerate(vs))}{'''			_ => {
				// another variant has another selector
				match self {
''' + ''.join(f"					{pat(v, '_x')} => {{ lemma_two::<K>(s, encv::<K>({'seq![' + ', '.join((f'CompactRef(_x{f[0]}).enc::<K>()' if f[2] else f'_x{f[0]}.enc::<K>()') for f in v[2]) + ']' if v[2] else 'Seq::<Value>::empty()'}, None), {i}); }}{NL}" for i, v in enumerate(vs)) + '''				}
			},
''' if len(vs) > 1 else ''}		}}
	}}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {{
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {{
{''.join(arm(i, v, 'complete') for i, v in enumerate(vs))}{'			_ => {},' if len(vs) > 1 else ''}
		}}
	}}
}}
''')
o.append('} // verus!\n')
open(os.path.join(HERE, 'contracts', 'le_shapes_thm.rs'), 'w').write(''.join(o))
