//! Value types stored in the simulated nodes.
//!
//! Every value carries an id chosen by the harness. `Val`, `Aligned` and `Big` additionally carry a
//! token that is tracked over their whole life (creation, clone, decode, drop) and a checksum that
//! exposes torn reads; their clone and encode contain preemption points.

use crate::exec::{mix, sim};
use minicbor::encode::Write;
use minicbor::{CborLen, Decode, Decoder, Encode, Encoder};
use std::cell::RefCell;

pub trait SimVal:
    'static + Send + Clone + Default + Encode<()> + CborLen<()> + for<'a> Decode<'a, ()>
{
    fn mk(id: u64) -> Self;
    fn vid(&self) -> u64;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Ty {
    Val,
    Zst,
    U64,
    U8,
    Aligned,
    Big,
    V1,
    V2Opt,
    V2Mand,
    V3Less,
    Changed,
    Text,
}
pub const ALL_TY: [Ty; 12] = [
    Ty::Val,
    Ty::Zst,
    Ty::U64,
    Ty::U8,
    Ty::Aligned,
    Ty::Big,
    Ty::V1,
    Ty::V2Opt,
    Ty::V2Mand,
    Ty::V3Less,
    Ty::Changed,
    Ty::Text,
];

/// id layout: bits 48.. = payload length (Val family), low 48 = unique number
pub fn mkid(len: u32, n: u64) -> u64 {
    ((len as u64) << 48) | (n & 0xffff_ffff_ffff)
}
pub fn id_len(id: u64) -> usize {
    (id >> 48) as usize
}
pub const POISON: u64 = 0xdead_dead_dead_dead;

#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty {
            $crate::val::Ty::Val => { type $T = $crate::val::Val; $e }
            $crate::val::Ty::Zst => { type $T = $crate::val::Zst; $e }
            $crate::val::Ty::U64 => { type $T = $crate::val::U64; $e }
            $crate::val::Ty::U8 => { type $T = $crate::val::U8; $e }
            $crate::val::Ty::Aligned => { type $T = $crate::val::Aligned; $e }
            $crate::val::Ty::Big => { type $T = $crate::val::Big; $e }
            $crate::val::Ty::V1 => { type $T = $crate::val::V1; $e }
            $crate::val::Ty::V2Opt => { type $T = $crate::val::V2Opt; $e }
            $crate::val::Ty::V2Mand => { type $T = $crate::val::V2Mand; $e }
            $crate::val::Ty::V3Less => { type $T = $crate::val::V3Less; $e }
            $crate::val::Ty::Changed => { type $T = $crate::val::Changed; $e }
            $crate::val::Ty::Text => { type $T = $crate::val::Text; $e }
        }
    };
}

/// what `vid` of a value made from `id` is
pub fn norm(ty: Ty, id: u64) -> u64 {
    sim().with_no_preempt(|| with_ty!(ty, T => T::mk(id).vid()))
}
/// id of `T::default()`
pub fn default_vid(ty: Ty) -> u64 {
    sim().with_no_preempt(|| with_ty!(ty, T => T::default().vid()))
}
/// decode a stored value as this type
pub fn decode_vid(ty: Ty, bytes: &[u8]) -> Option<u64> {
    sim().with_no_preempt(|| with_ty!(ty, T => minicbor::decode::<T>(bytes).ok().map(|v| v.vid())))
}
pub fn encode_val(ty: Ty, id: u64) -> Vec<u8> {
    sim().with_no_preempt(|| with_ty!(ty, T => minicbor::to_vec(T::mk(id)).unwrap()))
}

// ---------------------------------------------------------------- token registry

struct Reg {
    live: Vec<bool>,
    base: u32,
    nlive: i64,
}
thread_local! {
    static REG: RefCell<Reg> = const { RefCell::new(Reg { live: Vec::new(), base: 1, nlive: 0 }) };
}
fn tok_new() -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.push(true);
        r.nlive += 1;
        r.base + r.live.len() as u32 - 1
    })
}
/// None = belongs to an earlier life; Some(was live)
fn tok_state(t: u32) -> Option<bool> {
    REG.with(|r| {
        let r = r.borrow();
        if t < r.base {
            return None;
        }
        Some(r.live.get((t - r.base) as usize).copied().unwrap_or(false))
    })
}
fn tok_kill(t: u32) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if t >= r.base {
            let i = (t - r.base) as usize;
            if i < r.live.len() && r.live[i] {
                r.live[i] = false;
                r.nlive -= 1;
            }
        }
    })
}
/// forget everything alive (power cut)
pub fn tokens_new_epoch() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.base += r.live.len() as u32;
        r.live.clear();
        r.nlive = 0;
    })
}
pub fn tokens_live() -> i64 {
    REG.with(|r| r.borrow().nlive)
}

const MAGIC: u32 = 0x4e30_d1e5;
const DEAD: u32 = 0xdead_beef;

#[repr(C)]
pub struct Val {
    magic: u32,
    token: u32,
    id: u64,
    tail: u64,
}

fn id_check(id: u64) -> u64 {
    mix(id ^ 0x7ab5)
}

impl Val {
    fn raw(id: u64) -> Self {
        Val { magic: MAGIC, token: tok_new(), id, tail: id_check(id) }
    }
    fn check(&self, what: &str) -> bool {
        if self.magic != MAGIC {
            let m = self.magic;
            sim().violate("DROP", || format!("{what} of a value that is not initialised or already dropped (magic {m:08x})"));
            return false;
        }
        match tok_state(self.token) {
            Some(true) => {}
            Some(false) => {
                let id = self.id;
                sim().violate("DROP", || format!("{what} of a value already dropped (id {id:x})"));
                return false;
            }
            None => {
                let id = self.id;
                sim().violate("DROP", || format!("{what} of a value of an earlier boot (id {id:x})"));
                return false;
            }
        }
        true
    }
    /// read the id with preemption points inside the read
    fn read(&self, what: &str) -> u64 {
        if !self.check(what) {
            return POISON;
        }
        let id = self.id;
        sim().preempt(20);
        let tail = unsafe { std::ptr::read_volatile(&self.tail) };
        if tail != id_check(id) {
            sim().violate("TORN", || format!("{what} saw a mixture of two values (id {id:x})"));
            return POISON;
        }
        id
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        if !self.check("drop") {
            return;
        }
        tok_kill(self.token);
        self.magic = DEAD;
        sim().preempt(21);
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        let id = self.read("clone");
        sim().preempt(22);
        Val::raw(id)
    }
}
impl Default for Val {
    fn default() -> Self {
        Val::raw(0)
    }
}

fn payload(id: u64) -> Vec<u8> {
    let n = id_len(id);
    let mut v = Vec::with_capacity(8 + n);
    v.extend_from_slice(&id.to_le_bytes());
    let mut x = id;
    for _ in 0..n {
        x = mix(x);
        v.push(x as u8);
    }
    v
}
fn payload_id(b: &[u8]) -> Option<u64> {
    if b.len() < 8 {
        return None;
    }
    let id = u64::from_le_bytes(b[..8].try_into().unwrap());
    if id_len(id) > 4096 || payload(id) != b {
        return None;
    }
    Some(id)
}

impl<C> Encode<C> for Val {
    fn encode<W: Write>(&self, e: &mut Encoder<W>, _: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
        let id = self.read("encode");
        e.bytes(&payload(id))?;
        sim().preempt(23);
        Ok(())
    }
}
impl<C> CborLen<C> for Val {
    fn cbor_len(&self, ctx: &mut C) -> usize {
        let n = 8 + id_len(self.id);
        n.cbor_len(ctx) + n
    }
}
impl<'b, C> Decode<'b, C> for Val {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        let b = d.bytes()?;
        sim().preempt(24);
        match payload_id(b) {
            Some(id) => Ok(Val::raw(id)),
            None => Err(minicbor::decode::Error::message("bad payload")),
        }
    }
}
impl SimVal for Val {
    fn mk(id: u64) -> Self {
        Val::raw(id)
    }
    fn vid(&self) -> u64 {
        if self.check("read") { self.id } else { POISON }
    }
}

macro_rules! wrap_val {
    ($N:ident, $($attr:meta)?, $pad:expr, $padty:ty) => {
        $(#[$attr])?
        pub struct $N {
            v: Val,
            pad: $padty,
        }
        impl Clone for $N {
            fn clone(&self) -> Self {
                self.aligned();
                let v = self.v.clone();
                sim().preempt(25);
                let p = unsafe { std::ptr::read_volatile(&self.pad) };
                if p != $pad(v.id) {
                    sim().violate("TORN", || format!("clone saw a mixture of two values (id {:x})", v.id));
                }
                let pad = $pad(v.id);
                $N { v, pad }
            }
        }
        impl $N {
            fn aligned(&self) {
                let a = self as *const Self as usize;
                if a % std::mem::align_of::<Self>() != 0 {
                    sim().violate("DROP", || format!("misaligned value at {a:x}"));
                }
            }
        }
        impl Default for $N {
            fn default() -> Self {
                $N { v: Val::raw(0), pad: $pad(0) }
            }
        }
        impl<C> Encode<C> for $N {
            fn encode<W: Write>(&self, e: &mut Encoder<W>, c: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
                self.aligned();
                let p = unsafe { std::ptr::read_volatile(&self.pad) };
                let id0 = self.v.id;
                if p != $pad(id0) {
                    sim().violate("TORN", || format!("encode saw a mixture of two values (id {id0:x})"));
                }
                self.v.encode(e, c)
            }
        }
        impl<C> CborLen<C> for $N {
            fn cbor_len(&self, ctx: &mut C) -> usize {
                self.v.cbor_len(ctx)
            }
        }
        impl<'b, C> Decode<'b, C> for $N {
            fn decode(d: &mut Decoder<'b>, c: &mut C) -> Result<Self, minicbor::decode::Error> {
                let v = Val::decode(d, c)?;
                let pad = $pad(v.id);
                Ok($N { v, pad })
            }
        }
        impl SimVal for $N {
            fn mk(id: u64) -> Self {
                $N { v: Val::raw(id), pad: $pad(id) }
            }
            fn vid(&self) -> u64 {
                let id = self.v.vid();
                if id != POISON && self.pad != $pad(id) {
                    sim().violate("TORN", || format!("value is a mixture of two (id {id:x})"));
                }
                id
            }
        }
    };
}
wrap_val!(Aligned, repr(align(64)), (|id: u64| mix(id)), u64);
wrap_val!(Big, , (|id: u64| [id; 24]), [u64; 24]);

#[derive(Clone, Default, Encode, Decode, CborLen)]
pub struct Zst;
impl SimVal for Zst {
    fn mk(_: u64) -> Self {
        Zst
    }
    fn vid(&self) -> u64 {
        0
    }
}

#[derive(Clone, Default)]
pub struct U64(u64);
impl<C> Encode<C> for U64 {
    fn encode<W: Write>(&self, e: &mut Encoder<W>, c: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
        self.0.encode(e, c)
    }
}
impl<C> CborLen<C> for U64 {
    fn cbor_len(&self, ctx: &mut C) -> usize {
        self.0.cbor_len(ctx)
    }
}
impl<'b, C> Decode<'b, C> for U64 {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(U64(d.u64()?))
    }
}
impl SimVal for U64 {
    fn mk(id: u64) -> Self {
        let n = id & 0xffff_ffff_ffff;
        U64(match n % 3 {
            0 => n,
            1 => n << 12,
            _ => n << 40,
        })
    }
    fn vid(&self) -> u64 {
        self.0
    }
}

#[derive(Clone, Default)]
pub struct U8(u8);
impl<C> Encode<C> for U8 {
    fn encode<W: Write>(&self, e: &mut Encoder<W>, c: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
        self.0.encode(e, c)
    }
}
impl<C> CborLen<C> for U8 {
    fn cbor_len(&self, ctx: &mut C) -> usize {
        self.0.cbor_len(ctx)
    }
}
impl<'b, C> Decode<'b, C> for U8 {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(U8(d.u8()?))
    }
}
impl SimVal for U8 {
    fn mk(id: u64) -> Self {
        U8(mix(id) as u8)
    }
    fn vid(&self) -> u64 {
        self.0 as u64
    }
}

fn lo(id: u64) -> u64 {
    id & 0xffff_ffff_ffff
}
fn b_of(a: u64) -> u32 {
    mix(a ^ 0xb) as u32
}

#[derive(Clone, Default, Encode, Decode, CborLen)]
pub struct V1 {
    #[n(0)]
    a: u64,
    #[n(1)]
    b: u32,
}
impl SimVal for V1 {
    fn mk(id: u64) -> Self {
        let a = lo(id);
        V1 { a, b: b_of(a) }
    }
    fn vid(&self) -> u64 {
        if self.b == b_of(self.a) || (self.a == 0 && self.b == 0) { self.a } else { POISON }
    }
}
#[derive(Clone, Default, Encode, Decode, CborLen)]
pub struct V2Opt {
    #[n(0)]
    a: u64,
    #[n(1)]
    b: u32,
    #[n(2)]
    c: Option<u64>,
}
impl SimVal for V2Opt {
    fn mk(id: u64) -> Self {
        let a = lo(id);
        V2Opt { a, b: b_of(a), c: Some(a ^ 5) }
    }
    fn vid(&self) -> u64 {
        let ok = self.b == b_of(self.a) || (self.a == 0 && self.b == 0);
        if ok && self.c.is_none_or(|c| c == self.a ^ 5) { self.a } else { POISON }
    }
}
#[derive(Clone, Default, Encode, Decode, CborLen)]
pub struct V2Mand {
    #[n(0)]
    a: u64,
    #[n(1)]
    b: u32,
    #[n(2)]
    c: u64,
}
impl SimVal for V2Mand {
    fn mk(id: u64) -> Self {
        let a = lo(id);
        V2Mand { a, b: b_of(a), c: a ^ 5 }
    }
    fn vid(&self) -> u64 {
        if (self.b == b_of(self.a) && self.c == self.a ^ 5) || (self.a == 0 && self.b == 0 && self.c == 0) {
            self.a
        } else {
            POISON
        }
    }
}
#[derive(Clone, Default, Encode, Decode, CborLen)]
pub struct V3Less {
    #[n(0)]
    a: u64,
}
impl SimVal for V3Less {
    fn mk(id: u64) -> Self {
        V3Less { a: lo(id) }
    }
    fn vid(&self) -> u64 {
        self.a
    }
}
#[derive(Clone, Default, Encode, Decode, CborLen)]
pub struct Changed {
    #[n(0)]
    #[cbor(with = "minicbor::bytes")]
    a: Vec<u8>,
    #[n(1)]
    b: u32,
}
impl SimVal for Changed {
    fn mk(id: u64) -> Self {
        let a = lo(id);
        Changed { a: a.to_le_bytes().to_vec(), b: b_of(a) }
    }
    fn vid(&self) -> u64 {
        if self.a.is_empty() {
            return 0;
        }
        match <[u8; 8]>::try_from(&self.a[..]) {
            Ok(x) if b_of(u64::from_le_bytes(x)) == self.b => u64::from_le_bytes(x),
            _ => POISON,
        }
    }
}
/// a heap allocated text, exercising CBOR strings as values
#[derive(Clone, Default)]
pub struct Text(String);
impl<C> Encode<C> for Text {
    fn encode<W: Write>(&self, e: &mut Encoder<W>, _: &mut C) -> Result<(), minicbor::encode::Error<W::Error>> {
        e.str(&self.0)?;
        Ok(())
    }
}
impl<C> CborLen<C> for Text {
    fn cbor_len(&self, ctx: &mut C) -> usize {
        self.0.as_str().cbor_len(ctx)
    }
}
impl<'b, C> Decode<'b, C> for Text {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        Ok(Text(d.str()?.to_string()))
    }
}
impl SimVal for Text {
    fn mk(id: u64) -> Self {
        if id == 0 {
            return Text(String::new());
        }
        let n = id_len(id);
        let mut s = format!("{:x}", lo(id));
        while s.len() < n {
            s.push('.');
        }
        Text(s)
    }
    fn vid(&self) -> u64 {
        if self.0.is_empty() {
            return 0;
        }
        match u64::from_str_radix(self.0.trim_end_matches('.'), 16) {
            // the length is part of the identity, so that `mk` makes the same value again
            Ok(x) => mkid(self.0.len() as u32, x),
            Err(_) => POISON,
        }
    }
}
