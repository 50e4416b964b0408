use bm_le::Partialable;

#[derive(Partialable)]
pub struct Nil { }

#[derive(Partialable)]
pub struct Inner { pub x: u8 }

#[derive(Partialable)]
pub struct Two { pub s: u64, pub d: Inner }

#[derive(Partialable)]
pub struct Fields { pub a: u64, pub b: u16, pub c: Inner }

#[derive(Partialable)]
pub struct Five { pub v: u128, pub w: Two, pub x: u8, pub y: u8, pub z: Nil }

#[derive(Partialable)]
pub struct Nine { pub a: u16, pub b: u16, pub c: u16, pub d: u16, pub e: Two, pub f: u64, pub g: u64, pub h: u64, pub i: u64 }

#[derive(Partialable)]
pub struct Outer { pub f: Fields, pub i: Inner, pub g: Fields, pub n: u128, pub t: u32, pub z: Nil, pub q: Two }
