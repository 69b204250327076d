//! Generic-group model of a pairing over `Sym` scalars: a group element is its discrete
//! logarithm, the pairing multiplies logarithms, the target group adds them.
use crate::eng;
use crate::sym::Sym;
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM};
use ark_ff::{BigInt, CyclotomicMultSubgroup, Field, LegendreSymbol, One, PrimeField, SqrtPrecomputation, Zero};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;
use zeroize::Zeroize;

fn un(s: Sym) -> Sym {
    eng::with(|e| Sym(e.unalias(s.0)))
}
fn scalar_of(b: &[u64]) -> Sym {
    let mut l = [0u64; 4];
    for (i, x) in b.iter().enumerate().take(4) {
        l[i] = *x;
    }
    if b.iter().skip(4).any(|x| *x != 0) || ark_bls12_381::Fr::from_bigint(BigInt(l)).is_none() {
        use num_bigint::BigUint;
        let mut v = BigUint::from(0u32);
        for x in b.iter().rev() {
            v = (v << 64) + BigUint::from(*x);
        }
        return Sym::from(v);
    }
    Sym::from_repr(&BigInt(l))
}

/// group number K (1 or 2): the element with this discrete logarithm
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Grp<const K: u8>(pub Sym);
pub type G1 = Grp<1>;
pub type G2 = Grp<2>;

impl<const K: u8> fmt::Debug for Grp<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "g{}^{:?}", K, self.0)
    }
}
impl<const K: u8> fmt::Display for Grp<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "g{}^{:?}", K, self.0)
    }
}
impl<const K: u8> Default for Grp<K> {
    fn default() -> Self {
        Grp(Sym(0))
    }
}
impl<const K: u8> Hash for Grp<K> {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
impl<const K: u8> Zeroize for Grp<K> {
    fn zeroize(&mut self) {
        self.0 = Sym(0)
    }
}
impl<const K: u8> Distribution<Grp<K>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Grp<K> {
        Grp(Standard.sample(rng))
    }
}
impl<const K: u8> Zero for Grp<K> {
    fn zero() -> Self {
        Grp(Sym(0))
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<const K: u8> Neg for Grp<K> {
    type Output = Self;
    fn neg(self) -> Self {
        Grp(-self.0)
    }
}
impl<const K: u8> Add<Grp<K>> for Grp<K> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Grp(un(self.0 + o.0))
    }
}
impl<'a, const K: u8> Add<&'a Grp<K>> for Grp<K> {
    type Output = Self;
    fn add(self, o: &'a Self) -> Self {
        Grp(un(self.0 + o.0))
    }
}
impl<const K: u8> Sub<Grp<K>> for Grp<K> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Grp(un(self.0 - o.0))
    }
}
impl<'a, const K: u8> Sub<&'a Grp<K>> for Grp<K> {
    type Output = Self;
    fn sub(self, o: &'a Self) -> Self {
        Grp(un(self.0 - o.0))
    }
}
impl<const K: u8> AddAssign<Grp<K>> for Grp<K> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<'a, const K: u8> AddAssign<&'a Grp<K>> for Grp<K> {
    fn add_assign(&mut self, o: &'a Self) {
        *self = *self + *o
    }
}
impl<const K: u8> SubAssign<Grp<K>> for Grp<K> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<'a, const K: u8> SubAssign<&'a Grp<K>> for Grp<K> {
    fn sub_assign(&mut self, o: &'a Self) {
        *self = *self - *o
    }
}
impl<const K: u8> Mul<Sym> for Grp<K> {
    type Output = Self;
    fn mul(self, o: Sym) -> Self {
        Grp(self.0 * o)
    }
}
impl<'a, const K: u8> Mul<&'a Sym> for Grp<K> {
    type Output = Self;
    fn mul(self, o: &'a Sym) -> Self {
        Grp(self.0 * *o)
    }
}
impl<const K: u8> MulAssign<Sym> for Grp<K> {
    fn mul_assign(&mut self, o: Sym) {
        self.0 = self.0 * o
    }
}
impl<'a, const K: u8> MulAssign<&'a Sym> for Grp<K> {
    fn mul_assign(&mut self, o: &'a Sym) {
        self.0 = self.0 * *o
    }
}
impl<const K: u8> Sum<Grp<K>> for Grp<K> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Grp(Sym(0)), |a, b| a + b)
    }
}
impl<'a, const K: u8> Sum<&'a Grp<K>> for Grp<K> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Grp(Sym(0)), |a, b| a + *b)
    }
}
impl<'a, const K: u8> From<&'a Grp<K>> for Grp<K> {
    fn from(g: &'a Grp<K>) -> Self {
        *g
    }
}
impl<const K: u8> CanonicalSerialize for Grp<K> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        w.write_all(&[K])?;
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        33
    }
}
impl<const K: u8> Valid for Grp<K> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<const K: u8> CanonicalDeserialize for Grp<K> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        if b[0] != K {
            return Err(SerializationError::InvalidData);
        }
        Sym::deserialize_with_mode(r, c, v).map(Grp)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg;
impl CurveConfig for Cfg {
    type BaseField = ark_bls12_381::Fq;
    type ScalarField = Sym;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: Sym = Sym(1);
}
impl<const K: u8> Group for Grp<K> {
    type ScalarField = Sym;
    fn generator() -> Self {
        Grp(Sym(1))
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
        Grp(self.0 * scalar_of(o.as_ref()))
    }
}
impl<const K: u8> ScalarMul for Grp<K> {
    type MulBase = Self;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<Self> {
        b.to_vec()
    }
}
impl<const K: u8> VariableBaseMSM for Grp<K> {
    // the arkworks contract: sum over the common prefix
    fn msm_unchecked(bases: &[Self], scalars: &[Sym]) -> Self {
        bases.iter().zip(scalars).fold(Grp(Sym(0)), |a, (b, s)| Grp(a.0 + b.0 * *s))
    }
    fn msm_bigint(bases: &[Self], s: &[BigInt<4>]) -> Self {
        let s: Vec<Sym> = s.iter().map(Sym::from_repr).collect();
        Self::msm_unchecked(bases, &s)
    }
}
impl<const K: u8> CurveGroup for Grp<K> {
    type Config = Cfg;
    type BaseField = ark_bls12_381::Fq;
    type Affine = Self;
    type FullGroup = Self;
    fn normalize_batch(v: &[Self]) -> Vec<Self> {
        v.to_vec()
    }
}
impl<const K: u8> AffineRepr for Grp<K> {
    type Config = Cfg;
    type ScalarField = Sym;
    type BaseField = ark_bls12_381::Fq;
    type Group = Self;
    fn xy(&self) -> Option<(&Self::BaseField, &Self::BaseField)> {
        unimplemented!("coordinates of an abstract group element")
    }
    fn zero() -> Self {
        Grp(Sym(0))
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    fn generator() -> Self {
        Grp(Sym(1))
    }
    fn from_random_bytes(_: &[u8]) -> Option<Self> {
        None
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
        Grp(self.0 * scalar_of(o.as_ref()))
    }
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_to_group(&self) -> Self {
        *self
    }
}

/// target group, written multiplicatively as arkworks does
#[derive(Clone, Copy)]
pub struct GT {
    dl: Sym,
    zero: bool,
}
impl GT {
    fn new(dl: Sym) -> GT {
        GT { dl, zero: false }
    }
}
impl PartialEq for GT {
    fn eq(&self, o: &GT) -> bool {
        self.zero == o.zero && (self.zero || self.dl == o.dl)
    }
}
impl Eq for GT {}
impl PartialOrd for GT {
    fn partial_cmp(&self, o: &GT) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for GT {
    fn cmp(&self, o: &GT) -> std::cmp::Ordering {
        self.dl.cmp(&o.dl)
    }
}
impl Hash for GT {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
impl fmt::Debug for GT {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "gt^{:?}", self.dl)
    }
}
impl fmt::Display for GT {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "gt^{:?}", self.dl)
    }
}
impl Default for GT {
    fn default() -> Self {
        GT { dl: Sym(0), zero: true }
    }
}
impl Zeroize for GT {
    fn zeroize(&mut self) {
        *self = GT::default()
    }
}
impl Distribution<GT> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GT {
        GT::new(Standard.sample(rng))
    }
}
impl Zero for GT {
    fn zero() -> Self {
        GT::default()
    }
    fn is_zero(&self) -> bool {
        self.zero
    }
}
impl One for GT {
    fn one() -> Self {
        GT::new(Sym(0))
    }
    fn is_one(&self) -> bool {
        !self.zero && self.dl.is_zero()
    }
}
fn gmul(a: GT, b: GT) -> GT {
    if a.zero || b.zero {
        GT::default()
    } else {
        GT::new(un(a.dl + b.dl))
    }
}
fn gdiv(a: GT, b: GT) -> GT {
    GT::new(un(a.dl - b.dl))
}
fn gadd(a: GT, b: GT) -> GT {
    if a.zero {
        b
    } else if b.zero {
        a
    } else {
        unimplemented!("addition in the target field")
    }
}
fn gsub(a: GT, b: GT) -> GT {
    if b.zero {
        a
    } else {
        unimplemented!("subtraction in the target field")
    }
}
macro_rules! ops {
    ($tr:ident,$m:ident,$tra:ident,$ma:ident,$f:ident) => {
        impl $tr<GT> for GT {
            type Output = GT;
            fn $m(self, o: GT) -> GT {
                $f(self, o)
            }
        }
        impl<'a> $tr<&'a GT> for GT {
            type Output = GT;
            fn $m(self, o: &'a GT) -> GT {
                $f(self, *o)
            }
        }
        impl<'a> $tr<&'a mut GT> for GT {
            type Output = GT;
            fn $m(self, o: &'a mut GT) -> GT {
                $f(self, *o)
            }
        }
        impl $tra<GT> for GT {
            fn $ma(&mut self, o: GT) {
                *self = $f(*self, o)
            }
        }
        impl<'a> $tra<&'a GT> for GT {
            fn $ma(&mut self, o: &'a GT) {
                *self = $f(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut GT> for GT {
            fn $ma(&mut self, o: &'a mut GT) {
                *self = $f(*self, *o)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, gadd);
ops!(Sub, sub, SubAssign, sub_assign, gsub);
ops!(Mul, mul, MulAssign, mul_assign, gmul);
ops!(Div, div, DivAssign, div_assign, gdiv);
impl Neg for GT {
    type Output = GT;
    fn neg(self) -> GT {
        unimplemented!()
    }
}
impl Sum<GT> for GT {
    fn sum<I: Iterator<Item = GT>>(i: I) -> GT {
        i.fold(GT::default(), gadd)
    }
}
impl<'a> Sum<&'a GT> for GT {
    fn sum<I: Iterator<Item = &'a GT>>(i: I) -> GT {
        i.fold(GT::default(), |a, b| gadd(a, *b))
    }
}
impl Product<GT> for GT {
    fn product<I: Iterator<Item = GT>>(i: I) -> GT {
        i.fold(GT::one(), gmul)
    }
}
impl<'a> Product<&'a GT> for GT {
    fn product<I: Iterator<Item = &'a GT>>(i: I) -> GT {
        i.fold(GT::one(), |a, b| gmul(a, *b))
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(impl From<$t> for GT { fn from(x: $t) -> GT {
        let v = u128::from(x);
        if v == 0 { GT::default() } else if v == 1 { GT::one() } else { unimplemented!() }
    } })*};
}
from!(u128, u64, u32, u16, u8, bool);
impl CanonicalSerialize for GT {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        w.write_all(&[3 + self.zero as u8])?;
        self.dl.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        33
    }
}
impl CanonicalSerializeWithFlags for GT {
    fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, _: F) -> Result<(), SerializationError> {
        self.serialize_with_mode(w, Compress::Yes)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        33
    }
}
impl Valid for GT {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for GT {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        Ok(GT { dl: Sym::deserialize_with_mode(r, c, v)?, zero: b[0] == 4 })
    }
}
impl CanonicalDeserializeWithFlags for GT {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        Ok((GT::deserialize_with_mode(r, Compress::Yes, Validate::Yes)?, F::default()))
    }
}
impl Field for GT {
    type BasePrimeField = Sym;
    type BasePrimeFieldIter = std::iter::Empty<Sym>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = GT { dl: Sym(0), zero: true };
    const ONE: Self = GT { dl: Sym(0), zero: false };
    fn extension_degree() -> u64 {
        12
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        unimplemented!()
    }
    fn from_base_prime_field_elems(_: &[Sym]) -> Option<Self> {
        unimplemented!()
    }
    fn from_base_prime_field(_: Sym) -> Self {
        unimplemented!()
    }
    fn double(&self) -> Self {
        unimplemented!()
    }
    fn double_in_place(&mut self) -> &mut Self {
        unimplemented!()
    }
    fn neg_in_place(&mut self) -> &mut Self {
        unimplemented!()
    }
    fn from_random_bytes_with_flags<F: Flags>(_: &[u8]) -> Option<(Self, F)> {
        None
    }
    fn legendre(&self) -> LegendreSymbol {
        unimplemented!()
    }
    fn square(&self) -> Self {
        gmul(*self, *self)
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = gmul(*self, *self);
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.zero {
            None
        } else {
            Some(GT::new(-self.dl))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        let i = self.inverse()?;
        *self = i;
        Some(self)
    }
    fn frobenius_map_in_place(&mut self, _: usize) {
        unimplemented!()
    }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        if self.zero {
            return *self;
        }
        GT::new(self.dl * scalar_of(e.as_ref()))
    }
}
impl CyclotomicMultSubgroup for GT {
    const INVERSE_IS_FAST: bool = true;
    fn cyclotomic_exp_in_place(&mut self, e: impl AsRef<[u64]>) {
        *self = self.pow(e)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymPairing;
impl Pairing for SymPairing {
    type BaseField = ark_bls12_381::Fq;
    type ScalarField = Sym;
    type G1 = G1;
    type G1Affine = G1;
    type G1Prepared = G1;
    type G2 = G2;
    type G2Affine = G2;
    type G2Prepared = G2;
    type TargetField = GT;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<G1>>,
        b: impl IntoIterator<Item = impl Into<G2>>,
    ) -> MillerLoopOutput<Self> {
        let mut s = Sym(0);
        for (x, y) in a.into_iter().zip(b) {
            s += x.into().0 * y.into().0;
        }
        MillerLoopOutput(GT::new(s))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        Some(PairingOutput(m.0))
    }
}
