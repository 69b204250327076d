//! `Sym`: a symbolic BLS12-381 scalar. It implements the arkworks field traits, so the
//! repository's own generic code runs on it unchanged; every operation builds a term in the
//! engine and every comparison is a decision of the engine.
use crate::eng;
use ark_bls12_381::Fr;
use ark_ff::{BigInt, FftField, Field, LegendreSymbol, One, PrimeField, SqrtPrecomputation, UniformRand, Zero};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use num_bigint::BigUint;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;
use zeroize::Zeroize;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl Sym {
    pub fn c(f: Fr) -> Sym {
        eng::with(|e| Sym(e.constant(f)))
    }
    pub fn as_const(&self) -> Option<Fr> {
        eng::with(|e| {
            if let Some(c) = e.as_const(self.0) {
                return Some(c);
            }
            let p = e.nf(self.0);
            e.reduce(&p).as_const()
        })
    }
    /// scalar read back from its integer representation (undoes the constant aliases)
    pub fn from_repr(b: &BigInt<4>) -> Sym {
        let f = Fr::from_bigint(*b).expect("scalar out of range");
        eng::with(|e| {
            let n = e.constant(f);
            Sym(e.unalias(n))
        })
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl Default for Sym {
    fn default() -> Self {
        Sym(0)
    }
}
impl Hash for Sym {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        if self.0 == o.0 {
            return true;
        }
        eng::run(|e| {
            let d = e.sub(self.0, o.0);
            e.is_zero(d)
        })
    }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> Ordering {
        if self == o {
            Ordering::Equal
        } else if eng::run(|e| e.less(self.0, o.0)) {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
}
fn op_add(a: Sym, b: Sym) -> Sym {
    eng::with(|e| Sym(e.add(a.0, b.0)))
}
fn op_sub(a: Sym, b: Sym) -> Sym {
    eng::with(|e| Sym(e.sub(a.0, b.0)))
}
fn op_mul(a: Sym, b: Sym) -> Sym {
    eng::with(|e| Sym(e.mul(a.0, b.0)))
}
fn op_div(a: Sym, b: Sym) -> Sym {
    op_mul(a, b.inverse().expect("division by zero"))
}
macro_rules! ops {
    ($tr:ident,$m:ident,$tra:ident,$ma:ident,$f:ident) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $f(self, o)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $f(self, *o)
            }
        }
        impl<'a> $tr<&'a mut Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a mut Sym) -> Sym {
                $f(self, *o)
            }
        }
        impl<'a, 'b> $tr<&'a Sym> for &'b Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $f(*self, *o)
            }
        }
        impl<'b> $tr<Sym> for &'b Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $f(*self, o)
            }
        }
        impl $tra<Sym> for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = $f(*self, o)
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = $f(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut Sym> for Sym {
            fn $ma(&mut self, o: &'a mut Sym) {
                *self = $f(*self, *o)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, op_add);
ops!(Sub, sub, SubAssign, sub_assign, op_sub);
ops!(Mul, mul, MulAssign, mul_assign, op_mul);
ops!(Div, div, DivAssign, div_assign, op_div);
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        eng::with(|e| Sym(e.neg(self.0)))
    }
}
impl Zero for Sym {
    fn zero() -> Self {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        eng::run(|e| e.is_zero(self.0))
    }
}
impl One for Sym {
    fn one() -> Self {
        Sym(1)
    }
    fn is_one(&self) -> bool {
        *self == Sym(1)
    }
}
impl Sum<Sym> for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(Sym(0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(Sym(0), |a, b| a + b)
    }
}
impl Product<Sym> for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(Sym(1), |a, b| a * b)
    }
}
impl<'a> Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(Sym(1), |a, b| a * b)
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(impl From<$t> for Sym { fn from(x: $t) -> Sym { Sym::c(Fr::from(x)) } })*};
}
from!(u128, u64, u32, u16, u8, bool, BigUint);
impl From<BigInt<4>> for Sym {
    fn from(b: BigInt<4>) -> Sym {
        Sym::from_repr(&b)
    }
}
impl From<Sym> for BigInt<4> {
    fn from(s: Sym) -> BigInt<4> {
        s.into_bigint()
    }
}
impl From<Sym> for BigUint {
    fn from(s: Sym) -> BigUint {
        s.into_bigint().into()
    }
}
impl FromStr for Sym {
    type Err = ();
    fn from_str(s: &str) -> Result<Sym, ()> {
        Fr::from_str(s).map(Sym::c)
    }
}
impl Zeroize for Sym {
    fn zeroize(&mut self) {
        *self = Sym(0)
    }
}
impl Distribution<Sym> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Sym {
        let f = Fr::rand(rng);
        eng::with(|e| if e.model.is_some() { Sym(e.constant(f)) } else { Sym(e.generic()) })
    }
}
fn to_bytes(s: &Sym) -> [u8; 32] {
    let (is_c, id, c) = eng::with(|e| e.ser_id(s.0));
    let mut out = [0u8; 32];
    if is_c {
        c.serialize_compressed(&mut out[..]).unwrap();
    } else {
        out[..8].copy_from_slice(&id.to_le_bytes());
        out[31] = 0xff;
    }
    out
}
impl CanonicalSerialize for Sym {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> {
        w.write_all(&to_bytes(self)).map_err(|e| e.into())
    }
    fn serialized_size(&self, _: Compress) -> usize {
        32
    }
}
impl CanonicalSerializeWithFlags for Sym {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, _: F) -> Result<(), SerializationError> {
        self.serialize_with_mode(w, Compress::Yes)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        32
    }
}
impl Valid for Sym {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for Sym {
    fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Sym, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        if b[31] == 0xff {
            let mut i = [0u8; 8];
            i.copy_from_slice(&b[..8]);
            return eng::with(|e| e.ser_node(u64::from_le_bytes(i))).map(Sym).ok_or(SerializationError::InvalidData);
        }
        Fr::deserialize_compressed(&b[..]).map(Sym::c)
    }
}
impl CanonicalDeserializeWithFlags for Sym {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Sym, F), SerializationError> {
        Ok((Sym::deserialize_with_mode(r, Compress::Yes, Validate::Yes)?, F::default()))
    }
}
impl Field for Sym {
    type BasePrimeField = Sym;
    type BasePrimeFieldIter = std::iter::Once<Sym>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = Sym(0);
    const ONE: Self = Sym(1);
    fn characteristic() -> &'static [u64] {
        Fr::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(e: &[Sym]) -> Option<Self> {
        if e.len() == 1 { Some(e[0]) } else { None }
    }
    fn from_base_prime_field(e: Sym) -> Self {
        e
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = -*self;
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(b: &[u8]) -> Option<(Self, F)> {
        Fr::from_random_bytes_with_flags::<F>(b).map(|(f, g)| (Sym::c(f), g))
    }
    fn legendre(&self) -> LegendreSymbol {
        unimplemented!("legendre of a symbolic scalar")
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<Self> {
        eng::run(|e| e.inverse(self.0)).map(Sym)
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        let i = self.inverse()?;
        *self = i;
        Some(self)
    }
    fn frobenius_map_in_place(&mut self, _: usize) {}
}
const BAD: Sym = Sym(u32::MAX);
impl FftField for Sym {
    const GENERATOR: Self = BAD;
    const TWO_ADICITY: u32 = Fr::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = BAD;
}
impl PrimeField for Sym {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = Fr::MODULUS;
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<4> = Fr::MODULUS_MINUS_ONE_DIV_TWO;
    const MODULUS_BIT_SIZE: u32 = Fr::MODULUS_BIT_SIZE;
    const TRACE: BigInt<4> = Fr::TRACE;
    const TRACE_MINUS_ONE_DIV_TWO: BigInt<4> = Fr::TRACE_MINUS_ONE_DIV_TWO;
    fn from_bigint(r: BigInt<4>) -> Option<Self> {
        Fr::from_bigint(r).map(|_| Sym::from_repr(&r))
    }
    fn into_bigint(self) -> BigInt<4> {
        eng::with(|e| {
            let p = e.nf(self.0);
            match e.reduce(&p).as_const() {
                Some(c) => c,
                None => e.alias_for(self.0),
            }
        })
        .into_bigint()
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        if b.len() >= 32 && b.iter().any(|x| *x != 0) {
            return eng::with(|e| Sym(e.challenge(b)));
        }
        Sym::c(Fr::from_le_bytes_mod_order(b))
    }
}
