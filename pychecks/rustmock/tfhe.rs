// A stand-in for the tfhe crate: every ciphertext is the integer it encrypts.  The signatures are
// those of the calls HEIR's emitters generate.
#![allow(warnings)]
pub mod shortint {
    pub mod server_key {
        #[derive(Clone)]
        pub struct LookupTableOwned(pub Vec<u64>);
    }
    use server_key::LookupTableOwned;
    #[derive(Clone, Debug)]
    pub struct Ciphertext(pub u64);
    pub struct ServerKey;
    pub const M: u64 = 16;
    impl ServerKey {
        pub fn unchecked_add(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { Ciphertext((a.0 + b.0) % M) }
        pub fn bitand(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext { Ciphertext(a.0 & b.0) }
        pub fn scalar_left_shift(&self, a: &Ciphertext, s: u8) -> Ciphertext { Ciphertext(((a.0 as u128) << (s.min(63)) ) as u64 % M) }
        pub fn create_trivial(&self, v: u64) -> Ciphertext { Ciphertext(v % M) }
        pub fn generate_lookup_table<F: Fn(u64) -> u64>(&self, f: F) -> LookupTableOwned { LookupTableOwned((0..M).map(|x| f(x)).collect()) }
        pub fn apply_lookup_table(&self, a: &Ciphertext, t: &LookupTableOwned) -> Ciphertext { Ciphertext(t.0[a.0 as usize]) }
    }
}
pub mod boolean {
    pub mod prelude {
        #[derive(Clone, Debug)]
        pub struct Ciphertext(pub bool);
        pub struct ServerKey;
        pub trait Operand { fn bit(&self) -> bool; }
        impl Operand for &Ciphertext { fn bit(&self) -> bool { self.0 } }
        impl Operand for bool { fn bit(&self) -> bool { *self } }
        pub trait BinaryBooleanGates<L: Operand, R: Operand> {
            fn and(&self, a: L, b: R) -> Ciphertext { Ciphertext(a.bit() & b.bit()) }
            fn nand(&self, a: L, b: R) -> Ciphertext { Ciphertext(!(a.bit() & b.bit())) }
            fn or(&self, a: L, b: R) -> Ciphertext { Ciphertext(a.bit() | b.bit()) }
            fn nor(&self, a: L, b: R) -> Ciphertext { Ciphertext(!(a.bit() | b.bit())) }
            fn xor(&self, a: L, b: R) -> Ciphertext { Ciphertext(a.bit() ^ b.bit()) }
            fn xnor(&self, a: L, b: R) -> Ciphertext { Ciphertext(!(a.bit() ^ b.bit())) }
        }
        impl<'a, 'b> BinaryBooleanGates<&'a Ciphertext, &'b Ciphertext> for ServerKey {}
        impl<'a> BinaryBooleanGates<bool, &'a Ciphertext> for ServerKey {}
        impl<'a> BinaryBooleanGates<&'a Ciphertext, bool> for ServerKey {}
        impl ServerKey {
            pub fn not(&self, a: &Ciphertext) -> Ciphertext { Ciphertext(!a.0) }
            pub fn trivial_encrypt(&self, v: bool) -> Ciphertext { Ciphertext(v) }
        }
    }
    pub mod engine {
        pub mod fpga {
            pub struct BelfortBooleanServerKey;
            #[derive(Clone, Copy)]
            pub enum Gate { AND, NAND, OR, NOR, XOR, XNOR, NOT }
        }
    }
    pub mod ske {
        use super::engine::fpga::{BelfortBooleanServerKey, Gate};
        use super::prelude::*;
        pub enum ServerKeyEnum { TypeSW(ServerKey), TypeFPGA(BelfortBooleanServerKey) }
        pub trait ServerKeyTrait {
            fn packed_gates(&self, gates: &Vec<Gate>, l: &Vec<&Ciphertext>, r: &Vec<&Ciphertext>) -> Vec<Ciphertext>;
            fn not(&self, ct: &Ciphertext) -> Ciphertext;
            fn packed_not(&self, cts: &Vec<&Ciphertext>) -> Vec<Ciphertext>;
            fn trivial_encrypt(&self, value: bool) -> Ciphertext;
        }
        impl ServerKeyTrait for ServerKeyEnum {
            fn packed_gates(&self, gates: &Vec<Gate>, l: &Vec<&Ciphertext>, r: &Vec<&Ciphertext>) -> Vec<Ciphertext> {
                assert!(gates.len() == l.len() && l.len() == r.len());
                gates.iter().zip(l).zip(r).map(|((g, a), b)| {
                    let (a, b) = (a.0, b.0);
                    Ciphertext(match g {
                        Gate::AND => a & b, Gate::NAND => !(a & b), Gate::OR => a | b, Gate::NOR => !(a | b),
                        Gate::XOR => a ^ b, Gate::XNOR => !(a ^ b), Gate::NOT => !a,
                    })
                }).collect()
            }
            fn not(&self, ct: &Ciphertext) -> Ciphertext { Ciphertext(!ct.0) }
            fn packed_not(&self, cts: &Vec<&Ciphertext>) -> Vec<Ciphertext> { cts.iter().map(|c| Ciphertext(!c.0)).collect() }
            fn trivial_encrypt(&self, value: bool) -> Ciphertext { Ciphertext(value) }
        }
    }
}

use std::marker::PhantomData;
pub trait Id { const BITS: u32; }
pub struct FheUint<I: Id>(pub u128, pub PhantomData<I>);
impl<I: Id> Clone for FheUint<I> { fn clone(&self) -> Self { FheUint(self.0, PhantomData) } }
impl<I: Id> FheUint<I> {
    pub fn new(v: u128) -> Self { FheUint(if I::BITS >= 128 { v } else { v & ((1u128 << I::BITS) - 1) }, PhantomData) }
}
macro_rules! ids { ($($id:ident $ty:ident $bits:expr, $clear:ty;)*) => { $(
    pub struct $id;
    impl Id for $id { const BITS: u32 = $bits; }
    pub type $ty = FheUint<$id>;
    clear!($id, $clear, Add add wrapping_add, Sub sub wrapping_sub, Mul mul wrapping_mul);
    clearbits!($id, $clear, BitAnd bitand &, BitOr bitor |, BitXor bitxor ^);
)* } }
macro_rules! clear { ($id:ident, $clear:ty, $($tr:ident $f:ident $w:ident),*) => { $(
    impl std::ops::$tr<$clear> for FheUint<$id> { type Output = Self; fn $f(self, o: $clear) -> Self { Self::new(self.0.$w(o as u128)) } }
    impl<'a> std::ops::$tr<$clear> for &'a FheUint<$id> { type Output = FheUint<$id>; fn $f(self, o: $clear) -> FheUint<$id> { FheUint::new(self.0.$w(o as u128)) } }
)* } }
macro_rules! clearbits { ($id:ident, $clear:ty, $($tr:ident $f:ident $op:tt),*) => { $(
    impl std::ops::$tr<$clear> for FheUint<$id> { type Output = Self; fn $f(self, o: $clear) -> Self { Self::new(self.0 $op (o as u128)) } }
    impl<'a> std::ops::$tr<$clear> for &'a FheUint<$id> { type Output = FheUint<$id>; fn $f(self, o: $clear) -> FheUint<$id> { FheUint::new(self.0 $op (o as u128)) } }
)* } }
ids! { FheUint2Id FheUint2 2, u8; FheUint4Id FheUint4 4, u8; FheUint8Id FheUint8 8, u8; FheUint10Id FheUint10 10, u16; FheUint12Id FheUint12 12, u16;
       FheUint14Id FheUint14 14, u16; FheUint16Id FheUint16 16, u16; FheUint32Id FheUint32 32, u32; FheUint64Id FheUint64 64, u64; FheUint128Id FheUint128 128, u128; }
macro_rules! bin { ($($tr:ident $f:ident |$a:ident, $b:ident| $e:expr;)*) => { $(
    impl<I: Id> std::ops::$tr<FheUint<I>> for FheUint<I> { type Output = FheUint<I>; fn $f(self, o: FheUint<I>) -> FheUint<I> { let ($a, $b) = (self.0, o.0); FheUint::new($e) } }
    impl<'x, I: Id> std::ops::$tr<&'x FheUint<I>> for FheUint<I> { type Output = FheUint<I>; fn $f(self, o: &'x FheUint<I>) -> FheUint<I> { let ($a, $b) = (self.0, o.0); FheUint::new($e) } }
    impl<'x, I: Id> std::ops::$tr<FheUint<I>> for &'x FheUint<I> { type Output = FheUint<I>; fn $f(self, o: FheUint<I>) -> FheUint<I> { let ($a, $b) = (self.0, o.0); FheUint::new($e) } }
    impl<'x, 'y, I: Id> std::ops::$tr<&'y FheUint<I>> for &'x FheUint<I> { type Output = FheUint<I>; fn $f(self, o: &'y FheUint<I>) -> FheUint<I> { let ($a, $b) = (self.0, o.0); FheUint::new($e) } }
)* } }
bin! { Add add |a, b| a.wrapping_add(b); Sub sub |a, b| a.wrapping_sub(b); Mul mul |a, b| a.wrapping_mul(b);
       BitAnd bitand |a, b| a & b; BitOr bitor |a, b| a | b; BitXor bitxor |a, b| a ^ b; }
macro_rules! shifts { ($($t:ty)*) => { $(
    impl<I: Id> std::ops::Shr<$t> for FheUint<I> { type Output = FheUint<I>; fn shr(self, s: $t) -> FheUint<I> { FheUint::new(self.0 >> (s as u32)) } }
    impl<'x, I: Id> std::ops::Shr<$t> for &'x FheUint<I> { type Output = FheUint<I>; fn shr(self, s: $t) -> FheUint<I> { FheUint::new(self.0 >> (s as u32)) } }
    impl<I: Id> prelude::FheTryTrivialEncrypt<$t> for FheUint<I> { type Error = String; fn try_encrypt_trivial(v: $t) -> Result<Self, String> { Ok(FheUint::new(v as u128)) } }
)* } }
shifts! { u8 u16 u32 u64 u128 }
pub mod prelude {
    use super::*;
    pub trait FheTryTrivialEncrypt<T> where Self: Sized { type Error; fn try_encrypt_trivial(v: T) -> Result<Self, Self::Error>; }
    pub trait CastFrom<T> { fn cast_from(v: T) -> Self; }
    impl<A: Id, B: Id> CastFrom<FheUint<A>> for FheUint<B> { fn cast_from(v: FheUint<A>) -> Self { FheUint::new(v.0) } }
}

// What the generated main prints.
pub trait Show { fn show(&self) -> String; }
impl Show for shortint::Ciphertext { fn show(&self) -> String { self.0.to_string() } }
impl Show for boolean::prelude::Ciphertext { fn show(&self) -> String { (self.0 as u8).to_string() } }
impl<I: Id> Show for FheUint<I> { fn show(&self) -> String { self.0.to_string() } }
macro_rules! show { ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> String { self.to_string() } })* } }
show! { u8 u16 u32 u64 i8 i16 i32 i64 }
impl Show for bool { fn show(&self) -> String { (*self as u8).to_string() } }
impl<T: Show, const N: usize> Show for [T; N] { fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) } }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> String { format!("({}, {})", self.0.show(), self.1.show()) } }
impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn show(&self) -> String { format!("({}, {}, {})", self.0.show(), self.1.show(), self.2.show()) } }
