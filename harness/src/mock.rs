//! Ideal commitment: the commitment is the evaluation table, an opening is checked by
//! evaluating it. Lower-dimensional tables are read at the last coordinates of a longer
//! point, as the repository's commitments are. Used where the commitment scheme is not the subject.
use crate::val::ref_mle;
use ark_ec::pairing::Pairing;
use ark_ff::PrimeField;
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use ark_serialize::*;
use ark_std::rand::Rng;
use std::borrow::Borrow;
use std::marker::PhantomData;
use std::sync::Arc;
use zk_sql::subroutines::pcs::prelude::*;
use zk_sql::transcript::IOPTranscript;

#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct MockComm<F: PrimeField> {
    pub nv: u64,
    pub evals: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct MockProof {
    pub len: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MockBatch<F: PrimeField> {
    pub evals: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct MockParam {
    pub nv: u64,
}
#[derive(Clone, Debug)]
pub struct MockPcs<E: Pairing>(PhantomData<E>);

thread_local! {
    static SEEN: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
}
/// the points of the last batch verification
pub fn seen_points<F: PrimeField>() -> Vec<Vec<F>> {
    SEEN.with(|s| s.borrow().as_ref().and_then(|b| b.downcast_ref::<Vec<Vec<F>>>()).cloned().unwrap_or_default())
}

pub fn mock_eval<F: PrimeField>(c: &MockComm<F>, point: &[F]) -> Option<F> {
    let nv = c.nv as usize;
    if point.len() < nv {
        return None;
    }
    Some(ref_mle(&c.evals, &point[point.len() - nv..]))
}

impl<E: Pairing> PolynomialCommitmentScheme<E> for MockPcs<E> {
    type ProverParam = MockParam;
    type VerifierParam = MockParam;
    type SRS = MockParam;
    type Commitment = MockComm<E::ScalarField>;
    type Proof = MockProof;
    type BatchProof = MockBatch<E::ScalarField>;
    fn gen_srs_for_testing<R: Rng>(_: &mut R, n: usize) -> Result<MockParam, PCSError> {
        Ok(MockParam { nv: n as u64 })
    }
    fn trim(
        srs: impl Borrow<MockParam>,
        _: Option<usize>,
        n: Option<usize>,
    ) -> Result<(MockParam, MockParam), PCSError> {
        let _ = srs;
        let p = MockParam { nv: n.unwrap() as u64 };
        Ok((p.clone(), p))
    }
    fn commit(
        _: impl Borrow<MockParam>,
        poly: &DenseMultilinearExtension<E::ScalarField>,
    ) -> Result<Self::Commitment, PCSError> {
        Ok(MockComm { nv: poly.num_vars as u64, evals: poly.to_evaluations() })
    }
    fn open(
        _: impl Borrow<MockParam>,
        poly: &DenseMultilinearExtension<E::ScalarField>,
        point: &[E::ScalarField],
    ) -> Result<(MockProof, E::ScalarField), PCSError> {
        if poly.num_vars != point.len() {
            return Err(PCSError::InvalidParameters("point length".into()));
        }
        Ok((MockProof { len: point.len() as u64 }, ref_mle(&poly.evaluations, point)))
    }
    fn multi_open(
        _: impl Borrow<MockParam>,
        polys: &[Arc<DenseMultilinearExtension<E::ScalarField>>],
        points: &[Vec<E::ScalarField>],
        _evals: &[E::ScalarField],
        _: &mut IOPTranscript<E::ScalarField>,
    ) -> Result<Self::BatchProof, PCSError> {
        let mut evals = vec![];
        for (p, x) in polys.iter().zip(points) {
            if p.num_vars != x.len() {
                return Err(PCSError::InvalidParameters("point length".into()));
            }
            evals.push(ref_mle(&p.evaluations, x));
        }
        Ok(MockBatch { evals })
    }
    fn verify(
        _: &MockParam,
        c: &Self::Commitment,
        point: &[E::ScalarField],
        value: &E::ScalarField,
        _: &MockProof,
    ) -> Result<bool, PCSError> {
        Ok(mock_eval(c, point).map_or(false, |v| v == *value))
    }
    fn batch_verify(
        _: &MockParam,
        comms: &[Self::Commitment],
        points: &[Vec<E::ScalarField>],
        b: &Self::BatchProof,
        _: &mut IOPTranscript<E::ScalarField>,
    ) -> Result<bool, PCSError> {
        SEEN.with(|s| *s.borrow_mut() = Some(Box::new(points.to_vec())));
        if comms.len() != b.evals.len() || comms.len() != points.len() {
            return Ok(false);
        }
        for ((c, x), v) in comms.iter().zip(points).zip(&b.evals) {
            match mock_eval(c, x) {
                Some(w) if w == *v => {}
                _ => return Ok(false),
            }
        }
        Ok(true)
    }
}
