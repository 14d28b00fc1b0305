//! A transparent polynomial commitment scheme: the commitment is the evaluation vector itself.
//! It lets thousands of specification behaviours be replayed through the tracker and the IOPs
//! without pairings; a sample of every property's cases is also replayed with the real KZG.
use ark_bls12_381::{Bls12_381, Fr};
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::Rng;
use std::borrow::Borrow;
use std::sync::Arc;
use zk_sql::subroutines::{PCSError, PolynomialCommitmentScheme};
use zk_sql::transcript::IOPTranscript;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct MockPCS;

#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct MockComm(pub Vec<Fr>);

pub fn eval_low(evals: &[Fr], pt: &[Fr]) -> Option<Fr> {
    // a commitment to n variables is also the commitment of its front extension, as in KZG
    let n = evals.len().trailing_zeros() as usize;
    if n > pt.len() || !evals.len().is_power_of_two() {
        return None;
    }
    Some(crate::util::mle_eval(evals, &pt[pt.len() - n..]))
}

impl PolynomialCommitmentScheme<Bls12_381> for MockPCS {
    type ProverParam = ();
    type VerifierParam = ();
    type SRS = ();
    type Commitment = MockComm;
    type Proof = MockComm;
    type BatchProof = MockComm;

    fn gen_srs_for_testing<R: Rng>(_: &mut R, _: usize) -> Result<(), PCSError> {
        Ok(())
    }
    fn trim(_: impl Borrow<()>, _: Option<usize>, _: Option<usize>) -> Result<((), ()), PCSError> {
        Ok(((), ()))
    }
    fn commit(_: impl Borrow<()>, poly: &DenseMultilinearExtension<Fr>) -> Result<MockComm, PCSError> {
        if let Some(lie) = crate::cheats::intercept(&poly.evaluations) {
            let p = poly.evaluations.as_ptr() as *mut Fr;
            for (i, x) in lie.iter().enumerate() {
                // the caller is about to hand this very polynomial to its tracker
                unsafe { std::ptr::write_volatile(p.add(i), *x) };
            }
            return Ok(MockComm(lie));
        }
        Ok(MockComm(poly.evaluations.clone()))
    }
    fn open(_: impl Borrow<()>, p: &DenseMultilinearExtension<Fr>, pt: &[Fr]) -> Result<(MockComm, Fr), PCSError> {
        let v = p.evaluate(pt).ok_or(PCSError::InvalidParameters("point".into()))?;
        Ok((MockComm(vec![v]), v))
    }
    fn multi_open(
        _: impl Borrow<()>,
        polys: &[Arc<DenseMultilinearExtension<Fr>>],
        points: &[Vec<Fr>],
        _evals: &[Fr],
        transcript: &mut IOPTranscript<Fr>,
    ) -> Result<MockComm, PCSError> {
        let evals: Vec<Fr> = polys
            .iter()
            .zip(points)
            .map(|(p, pt)| p.evaluate(pt).ok_or(PCSError::InvalidParameters("point".into())))
            .collect::<Result<_, _>>()?;
        transcript.append_serializable_element(b"mock evals", &evals)?;
        Ok(MockComm(evals))
    }
    fn verify(_: &(), c: &MockComm, pt: &[Fr], v: &Fr, _: &MockComm) -> Result<bool, PCSError> {
        Ok(eval_low(&c.0, pt) == Some(*v))
    }
    fn batch_verify(
        _: &(),
        comms: &[MockComm],
        points: &[Vec<Fr>],
        proof: &MockComm,
        transcript: &mut IOPTranscript<Fr>,
    ) -> Result<bool, PCSError> {
        transcript.append_serializable_element(b"mock evals", &proof.0)?;
        if comms.len() != points.len() || comms.len() != proof.0.len() {
            return Ok(false);
        }
        Ok(comms.iter().zip(points).zip(&proof.0).all(|((c, pt), e)| eval_low(&c.0, pt) == Some(*e)))
    }
}
