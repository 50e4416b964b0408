use bm_le::{IntoTree, FromTree};

#[derive(IntoTree, FromTree)]
pub struct Empty;

#[derive(IntoTree, FromTree)]
pub struct One<A> { pub a: A }

#[derive(IntoTree, FromTree)]
pub struct Pair<A, B>(pub A, pub B);

#[derive(IntoTree, FromTree)]
pub struct Three<A, B, C> { pub a: A, pub b: B, pub c: C }

#[derive(IntoTree, FromTree)]
pub struct Four<A, B, C, D> { pub w: D, pub x: A, pub y: C, pub z: B }

#[derive(IntoTree, FromTree)]
pub struct Nine<A, B, C, D, E, F, G, H, I> { pub a_: A, pub b_: B, pub c_: C, pub d_: D, pub e_: E, pub f_: F, pub g_: G, pub h_: H, pub i_: I }

#[derive(IntoTree, FromTree)]
pub struct Five<A, B, C, D, E>(pub A, pub B, pub C, pub D, pub E);

#[derive(IntoTree, FromTree)]
pub struct Packed<A, B, C> {
	pub a: A,
	#[bm(compact)]
	pub b: B,
	pub c: C,
}

#[derive(IntoTree, FromTree)]
pub struct Bits<A, B>(#[bm(compact)] pub A, pub B);

#[derive(IntoTree, FromTree)]
pub enum Choice<A> { Just(A) }

#[derive(IntoTree, FromTree)]
pub enum Mixed<A, B, C> {
	Nothing,
	Named { a: A, b: B },
	Tuple(C, A, B),
	Single(B),
	Last,
	Braced { },
	Round(),
}

#[derive(IntoTree, FromTree)]
pub enum Dense<A, B> {
	Plain { a: A },
	Compact {
		b: B,
		#[bm(compact)]
		a: A,
	},
}
