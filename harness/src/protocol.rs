//! `conform protocol`: replay the specification's attacks on compiled proofs.  A case is an honest
//! program plus a list of attacks, each with the verdict the specification (`expect`) gives and the one
//! its known deviation (`design`: no final sumcheck check) gives.
use crate::iop_run::dress_of;
use crate::iops::*;
use crate::kzg::{kzg_params, Kzg};
use crate::mock::{MockComm, MockPCS};
use crate::util::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_poly::MultilinearExtension;
use serde_json::{json, Value};
use std::sync::Arc;
use zk_sql::subroutines::poly_iop::structs::IOPProof;
use zk_sql::subroutines::verif_hooks::{batch_proof, batch_proof_parts, round_evaluations, round_message};
use zk_sql::subroutines::PolynomialCommitmentScheme;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hooks::*;
use zk_sql::transcript::IOPTranscript;

/// what an adversary can do to the parts of a commitment scheme's objects
pub trait Tamper: PolynomialCommitmentScheme<E> {
    fn bend_comm(c: &Self::Commitment, rng: &mut Rng64) -> Self::Commitment;
    fn bend_batch(b: &Self::BatchProof, rng: &mut Rng64) -> (String, Self::BatchProof);
}
fn nonzero(rng: &mut Rng64) -> F {
    if rng.below(2) == 0 {
        F::from(1 + rng.below(3))
    } else {
        rng.field::<F>()
    }
}
impl Tamper for MockPCS {
    fn bend_comm(c: &MockComm, rng: &mut Rng64) -> MockComm {
        let mut c = c.clone();
        let k = rng.below(c.0.len() as u64) as usize;
        c.0[k] += nonzero(rng);
        c
    }
    fn bend_batch(b: &MockComm, rng: &mut Rng64) -> (String, MockComm) {
        let mut b = b.clone();
        let k = rng.below(b.0.len() as u64) as usize;
        let what = match rng.below(3) {
            0 => {
                b.0.pop();
                "an evaluation dropped"
            }
            1 => {
                b.0.push(F::from(0u64));
                "an evaluation added"
            }
            _ => {
                b.0[k] += nonzero(rng);
                "an evaluation altered"
            }
        };
        (what.into(), b)
    }
}
impl Tamper for Kzg {
    fn bend_comm(c: &Self::Commitment, rng: &mut Rng64) -> Self::Commitment {
        let mut c = *c;
        c.0 = (c.0.into_group() + ark_bls12_381::G1Affine::generator() * nonzero(rng)).into_affine();
        c
    }
    fn bend_batch(b: &Self::BatchProof, rng: &mut Rng64) -> (String, Self::BatchProof) {
        let (mut sc, mut ev, mut g) = batch_proof_parts::<E, Kzg>(b);
        let mut msgs: Vec<Vec<F>> = sc.proofs.iter().map(round_evaluations).collect();
        let i = rng.below(ev.len() as u64) as usize;
        let r = rng.below(msgs.len() as u64) as usize;
        let q = rng.below(g.proofs.len() as u64) as usize;
        let what = match rng.below(11) {
            0 => {
                ev[i] += nonzero(rng);
                "an evaluation altered"
            }
            1 => {
                ev.pop();
                "an evaluation dropped"
            }
            2 => {
                ev.push(F::from(0u64));
                "an evaluation added"
            }
            3 => {
                let k = rng.below(msgs[r].len() as u64) as usize;
                msgs[r][k] += nonzero(rng);
                "a round value altered"
            }
            4 => {
                msgs.pop();
                "a round dropped"
            }
            5 => {
                let m = msgs[r].clone();
                msgs.push(m);
                "a round added"
            }
            6 => {
                msgs[r].pop();
                "a round value dropped"
            }
            7 => {
                sc.point[r] += nonzero(rng);
                "the stated point altered"
            }
            8 => {
                sc.point.pop();
                "the stated point shortened"
            }
            9 => {
                g.proofs.pop();
                "a quotient dropped"
            }
            _ => {
                g.proofs[q] = (g.proofs[q].into_group() + ark_bls12_381::G1Affine::generator() * nonzero(rng)).into_affine();
                "a quotient altered"
            }
        };
        let sc = IOPProof { point: sc.point, proofs: msgs.into_iter().map(round_message).collect() };
        (what.into(), batch_proof(sc, ev, g))
    }
}

type Proof<P> = CompiledZKSQLProof<E, P>;

struct Base<'a, P: Tamper> {
    prm: &'a Params<P>,
    steps: Vec<Value>,
    cols: Vec<Colm>,
    lay: Vec<Layout>,
    dress: Dress,
    proof: Proof<P>,
    nv: usize,
    /// the prover's columns at the common size, in commitment order
    opened: Vec<Arc<ark_poly::DenseMultilinearExtension<F>>>,
    honest_sums: Vec<F>,
    /// the prover after it compiled the proof
    done: ProverTracker<E, P>,
}

#[derive(Default, Clone)]
struct Hist {
    before: bool,
    draw: bool,
}

impl<'a, P: Tamper> Base<'a, P> {
    fn new(prm: &'a Params<P>, case: &Value, seed: u64, k: u64) -> Result<Self, String> {
        let emb = Emb::from_case(case, seed, k);
        let (cols, lay) = layout(case, &emb);
        let big = cols.iter().map(|c| log2(c.evals.len())).max().unwrap_or(1).max(1);
        let mut dress = dress_of(case, seed, k);
        // one random column, so that no proof is degenerate
        dress.pre = vec![match k % 3 {
            0 => big,
            1 => big + 1,
            _ => 1,
        }];
        dress.shares = k % 4 == 1;
        let steps = arr(&case["steps"]);
        let mut pt: PT<P> = ProverTrackerRef::new_from_pcs_params(prm.pp.clone());
        let mut env = guard_res(|| commit_inputs(&mut pt, &cols, &lay, &dress)).map_err(|e| format!("commit: {}", e))?;
        for st in &steps {
            guard_res(|| prove_step(&mut pt, &mut env, st)).map_err(|e| format!("prove: {}", e))?;
        }
        let proof = guard_res(|| pt.compile_proof()).map_err(|e| format!("compile: {}", e))?;
        let nv = proof.sc_aux_info.num_variables;
        let ut = pt.clone_underlying_tracker();
        let mut ids: Vec<_> = ut.materialized_comms.keys().cloned().collect();
        ids.sort();
        let opened = ids.iter().map(|i| ut.materialized_polys[i].clone()).collect();
        Ok(Base { prm, steps, cols, lay, dress, proof, nv, opened, honest_sums: vec![], done: ut })
    }
    /// the verifier's run up to the decision
    fn verifier(&self, proof: &Proof<P>, hist: &Hist) -> Result<VerifierTracker<E, P>, String> {
        let mut vt: VT<P> = VerifierTrackerRef::new_from_pcs_params(self.prm.vp.clone());
        vt.set_compiled_proof(proof.clone());
        if hist.before {
            vt.append_serializable_element(b"comm", &F::from(5u64)).unwrap();
        }
        let mut env = guard(|| transfer_inputs(&mut vt, &self.cols, &self.lay, &self.dress)).map_err(|e| format!("panic: transfer: {}", e))?;
        if hist.draw {
            vt.get_and_append_challenge(b"another challenge").unwrap();
        }
        for st in &self.steps {
            guard_res(|| verify_step(&mut vt, &mut env, st, self.nv))?;
        }
        Ok(vt.clone_underlying_tracker())
    }

    /// Ok(None): the change touches nothing anybody reads
    fn tampered(&self, a: &Value, rng: &mut Rng64) -> Result<Option<(String, Result<(), String>)>, String> {
        let mut p = self.proof.clone();
        let mut note = vec![];
        let is = |k: &str, v: &str| a[k] == v;
        let mut ids: Vec<TrackerID> = p.comms.keys().cloned().collect();
        ids.sort();
        let pick = |rng: &mut Rng64, n: usize| rng.below(n.max(1) as u64) as usize;
        if is("comm", "x") {
            let i = ids[pick(rng, ids.len())];
            let j = ids[pick(rng, ids.len())];
            if rng.below(3) == 0 && p.comms[&i] != p.comms[&j] {
                let (x, y) = (p.comms[&i].clone(), p.comms[&j].clone());
                p.comms.insert(i, y);
                p.comms.insert(j, x);
                note.push(format!("commitments {} and {} exchanged", i, j));
            } else {
                let c = P::bend_comm(&p.comms[&i], rng);
                p.comms.insert(i, c);
                note.push(format!("commitment {} altered", i));
            }
        }
        if is("sum", "x") {
            let mut sums: Vec<TrackerID> = p.sumcheck_claims.keys().cloned().collect();
            sums.sort();
            let d = nonzero(rng);
            let one = pick(rng, sums.len());
            let all = rng.below(4) == 0;
            for (n, i) in sums.iter().enumerate() {
                if all || n == one {
                    *p.sumcheck_claims.get_mut(i).unwrap() += d;
                }
            }
            note.push(if all { "every claimed sum altered".into() } else { format!("claimed sum {} altered", sums[one]) });
        }
        if is("aux", "x") {
            match rng.below(7) {
                0 => p.sc_aux_info.num_variables += 1,
                1 => p.sc_aux_info.num_variables -= 1,
                2 => p.sc_aux_info.num_variables = 0,
                3 => p.sc_aux_info.num_variables = usize::MAX >> rng.below(30),
                4 => p.sc_aux_info.max_degree += 1,
                5 => p.sc_aux_info.max_degree -= 1,
                _ => p.sc_aux_info.max_degree = usize::MAX,
            }
            note.push(format!("{} variables, degree {}", p.sc_aux_info.num_variables, p.sc_aux_info.max_degree));
        }
        let mut msgs: Vec<Vec<F>> = p.sc_proof.proofs.iter().map(round_evaluations).collect();
        let n = msgs.len();
        for (j, m) in arr(&a["msgs"]).iter().enumerate() {
            // the specification's last round is the last round; its first one is any other
            let r = if j + 1 == arr(&a["msgs"]).len() || n == 1 { n - 1 } else { pick(rng, n - 1) };
            let d = nonzero(rng);
            match m.as_str().unwrap() {
                "x01" => {
                    let k = pick(rng, 2);
                    msgs[r][k] += d;
                    note.push(format!("round {} value {} altered", r, k));
                }
                "xk" => {
                    if msgs[r].len() > 2 && rng.below(4) > 0 {
                        let k = 2 + pick(rng, msgs[r].len() - 2);
                        msgs[r][k] += d;
                        note.push(format!("round {} value {} altered", r, k));
                    } else {
                        msgs[r][0] += d;
                        msgs[r][1] -= d;
                        note.push(format!("round {} values altered, their sum kept", r));
                    }
                }
                _ => {}
            }
        }
        if is("shape", "x") {
            let r = pick(rng, n);
            match rng.below(8) {
                0 => {
                    msgs.pop();
                    note.push("a round dropped".into());
                }
                1 => {
                    msgs.push(msgs[r].clone());
                    note.push("a round added".into());
                }
                2 => {
                    msgs[r].pop();
                    note.push("a round value dropped".into());
                }
                3 => {
                    msgs[r].push(F::from(0u64));
                    note.push("a round value added".into());
                }
                4 => {
                    msgs[r].clear();
                    note.push("an empty round".into());
                }
                5 => {
                    msgs.clear();
                    note.push("no rounds".into());
                }
                6 => {
                    msgs[r].truncate(1);
                    note.push("a round of one value".into());
                }
                _ => {
                    for m in msgs.iter_mut() {
                        m.truncate(1);
                    }
                    p.sc_aux_info.max_degree = 0;
                    note.push("rounds of one value, degree 0".into());
                }
            }
        }
        p.sc_proof.proofs = msgs.into_iter().map(round_message).collect();
        if is("point", "x") {
            match rng.below(3) {
                0 if !p.sc_proof.point.is_empty() => {
                    let k = pick(rng, p.sc_proof.point.len());
                    p.sc_proof.point[k] += nonzero(rng);
                }
                1 => {
                    p.sc_proof.point.pop();
                }
                _ => p.sc_proof.point.clear(),
            }
            note.push("the stated point altered".into());
        }
        if is("open", "x") {
            let (what, b) = P::bend_batch(&p.pcs_proof[0], rng);
            p.pcs_proof[0] = b;
            note.push(format!("opening: {}", what));
        }
        if is("open", "none") {
            p.pcs_proof.clear();
            note.push("no opening".into());
        }
        let mut hist = Hist::default();
        let mut late = 9;
        if is("hist", "x") {
            match rng.below(5) {
                0 => hist.before = true,
                1 => hist.draw = true,
                k => late = k,
            }
            note.push(format!("another history ({})", if hist.before { 0 } else if hist.draw { 1 } else { late }));
        }
        let built = self.verifier(&p, &hist);
        let mut ut = match built {
            Ok(u) => u,
            Err(e) => return Ok(Some((note.join(", "), Err(e)))),
        };
        if is("sum", "x") && ut.sum_check_claims.iter().map(|c| c.claimed_sum).collect::<Vec<_>>() == self.honest_sums {
            return Ok(None);
        }
        match late {
            2 => ut.transcript.append_message(b"prog message", b"more").unwrap(),
            3 => ut.transcript.append_message(b"", b"").unwrap(),
            4 => {
                ut.transcript.get_and_append_challenge(b"zerocheck challenge").unwrap();
            }
            _ => {}
        }
        let (nz, ns) = (ut.zero_check_claims.len(), ut.sum_check_claims.len());
        match a["claims"].as_str().unwrap() {
            "x" => {
                let k = rng.below(5);
                note.push(match k {
                    0 if nz > 0 => {
                        ut.zero_check_claims.remove(pick(rng, nz));
                        "a zero claim dropped".into()
                    }
                    1 if nz > 0 => {
                        let c = ut.zero_check_claims[pick(rng, nz)];
                        ut.zero_check_claims.push(c);
                        "a zero claim repeated".into()
                    }
                    2 if ns > 0 => {
                        ut.sum_check_claims.remove(pick(rng, ns));
                        "a sum claim dropped".into()
                    }
                    3 if ns > 0 => {
                        let c = ut.sum_check_claims[pick(rng, ns)];
                        ut.sum_check_claims.push(c);
                        "a sum claim repeated".into()
                    }
                    _ => {
                        ut.zero_check_claims.push(TrackerZerocheckClaim::new(ids[0]));
                        "a zero claim about a random column added".to_string()
                    }
                });
            }
            "value" => {
                let d = nonzero(rng);
                if ns > 0 {
                    let k = pick(rng, ns);
                    ut.sum_check_claims[k].claimed_sum += d;
                    note.push(format!("the {}th sum claim's value altered", k));
                } else {
                    ut.sum_check_claims.push(TrackerSumcheckClaim::new(ids[0], d));
                    note.push("a false sum claim added".into());
                }
            }
            "other" => {
                let k = pick(rng, nz + ns);
                if k < nz {
                    ut.zero_check_claims[k].label = ids[0];
                } else if k < nz + ns {
                    ut.sum_check_claims[k - nz].label = ids[0];
                } else {
                    return Ok(None);
                }
                note.push(format!("claim {} made about another column", k));
            }
            _ => {}
        }
        Ok(Some((note.join(", "), guard_res(|| ut.verify_claims()))))
    }

    /// the challenges of the rest of the run, as drawn from a transcript that already holds the claims' sums
    fn simulate(t: &mut IOPTranscript<F>, nz: usize, nv: usize, sums: Option<&Vec<F>>, ns: usize) -> Vec<F> {
        for _ in 0..nz {
            t.get_and_append_challenge(b"zerocheck challenge").unwrap();
        }
        t.get_and_append_challenge_vectors(b"0check r", nv).unwrap();
        if let Some(s) = sums {
            t.append_serializable_element(b"claimed sums", s).unwrap();
        }
        (0..ns).map(|_| t.get_and_append_challenge(b"sumcheck challenge").unwrap()).collect()
    }

    /// false sums that cancel under challenges drawn without them
    fn cancel(&self, ut: &VerifierTracker<E, P>, stale: bool, rng: &mut Rng64) -> Option<Result<(), String>> {
        let ns = ut.sum_check_claims.len();
        if ns < 2 {
            return None;
        }
        let mut sums = self.honest_sums.clone();
        sums.push(F::from(0u64));
        let mut t = ut.transcript.clone();
        let ch = Self::simulate(&mut t, ut.zero_check_claims.len(), self.nv, if stale { Some(&sums) } else { None }, ns);
        let a = rng.below(ns as u64) as usize;
        let b = (a + 1 + rng.below(ns as u64 - 1) as usize) % ns;
        let d = nonzero(rng);
        let mut ut = ut.clone();
        ut.sum_check_claims[a].claimed_sum += ch[b] * d;
        ut.sum_check_claims[b].claimed_sum -= ch[a] * d;
        Some(guard_res(|| ut.verify_claims()))
    }

    /// a prover who draws the claims' challenges before it states the sums, then proves exactly what it claims:
    /// `stated`: 0 = false sums stated after the challenges, 1 = never stated, 2 = true sums, stated in time
    fn reprove(&self, ut: &VerifierTracker<E, P>, stated: usize, rng: &mut Rng64) -> Option<Result<(), String>> {
        let claims = self.done.sum_check_claims.clone();
        let ns = ut.sum_check_claims.len();
        if ns < 2 || claims.len() != ns + 1 {
            return None;
        }
        let mut sums = self.honest_sums.clone();
        sums.push(F::from(0u64));
        let mut t = ut.transcript.clone();
        let ch = Self::simulate(&mut t, ut.zero_check_claims.len(), self.nv, if stated == 2 { Some(&sums) } else { None }, ns + 1);
        let mut ut = ut.clone();
        if stated != 2 {
            let a = rng.below(ns as u64) as usize;
            let b = (a + 1 + rng.below(ns as u64 - 1) as usize) % ns;
            let d = nonzero(rng);
            ut.sum_check_claims[a].claimed_sum += ch[b] * d;
            ut.sum_check_claims[b].claimed_sum -= ch[a] * d;
            let s: Vec<F> = ut.sum_check_claims.iter().map(|c| c.claimed_sum).chain([F::from(0u64)]).collect();
            if stated == 0 {
                t.append_serializable_element(b"claimed sums", &s).unwrap();
            }
        }
        let mut all = zk_sql::arithmetic::VirtualPolynomial::<F>::new(self.nv);
        for (c, h) in claims.iter().zip(&ch) {
            let vp = self.done.to_arithmatic_virtual_poly(c.label);
            for (k, p) in &vp.products {
                all.add_mle_list(p.iter().map(|i| vp.flattened_ml_extensions[*i].clone()).collect::<Vec<_>>(), *k * h).ok()?;
            }
        }
        all.aux_info = ut.proof.sc_aux_info.clone();
        let sc = guard_res(|| <zk_sql::subroutines::poly_iop::PolyIOP<F> as zk_sql::subroutines::poly_iop::sum_check::SumCheck<F>>::prove(&all, &mut t)).ok()?;
        let points = vec![sc.point.clone(); self.opened.len()];
        let evals: Vec<F> = self.opened.iter().map(|p| p.evaluate(&sc.point).unwrap()).collect();
        let b = guard_res(|| P::multi_open(&self.prm.pp, &self.opened, &points, &evals, &mut t)).ok()?;
        ut.proof.sc_proof = sc;
        ut.proof.pcs_proof = vec![b];
        Some(guard_res(|| ut.verify_claims()))
    }

    /// a prover who makes up the round messages so that they fit whatever is claimed, and opens the
    /// committed columns honestly where the challenges fall
    fn fabricate(&self, ut: &VerifierTracker<E, P>, values: bool, rng: &mut Rng64) -> Option<Result<(), String>> {
        let mut ut = ut.clone();
        if values {
            // a false value of a true claim
            let ns = ut.sum_check_claims.len();
            if ns == 0 {
                return None;
            }
            let k = rng.below(ns as u64) as usize;
            ut.sum_check_claims[k].claimed_sum += nonzero(rng);
        } else {
            // a claim that a random column is zero
            let mut ids: Vec<_> = ut.materialized_comms.keys().cloned().collect();
            ids.sort();
            ut.zero_check_claims.push(TrackerZerocheckClaim::new(ids[0]));
        }
        let ns = ut.sum_check_claims.len() + 1;
        let mut sums: Vec<F> = ut.sum_check_claims.iter().map(|c| c.claimed_sum).collect();
        sums.push(F::from(0u64));
        let mut t = ut.transcript.clone();
        let ch = Self::simulate(&mut t, ut.zero_check_claims.len(), self.nv, Some(&sums), ns);
        let mut claim: F = sums.iter().zip(&ch).map(|(s, c)| *s * c).sum();
        t.append_serializable_element(b"aux info", &ut.proof.sc_aux_info).unwrap();
        let d = ut.proof.sc_aux_info.max_degree;
        let half = F::from(2u64);
        let (mut msgs, mut point) = (vec![], vec![]);
        for _ in 0..self.nv {
            // a constant polynomial
            let m = round_message(vec![claim / half; d + 1]);
            t.append_serializable_element(b"prover msg", &m).unwrap();
            point.push(t.get_and_append_challenge(b"Internal round").unwrap());
            claim /= half;
            msgs.push(m);
        }
        let points = vec![point.clone(); self.opened.len()];
        let evals: Vec<F> = self.opened.iter().map(|p| p.evaluate(&point).unwrap()).collect();
        let b = guard_res(|| P::multi_open(&self.prm.pp, &self.opened, &points, &evals, &mut t)).ok()?;
        ut.proof.sc_proof = IOPProof { point, proofs: msgs };
        ut.proof.pcs_proof = vec![b];
        Some(guard_res(|| ut.verify_claims()))
    }

    /// does our copy of the verifier's challenges match the honest run? (otherwise the adaptive attacks are dead)
    fn alive(&self, ut: &VerifierTracker<E, P>) -> bool {
        let mut t = ut.transcript.clone();
        let mut sums = self.honest_sums.clone();
        sums.push(F::from(0u64));
        Self::simulate(&mut t, ut.zero_check_claims.len(), self.nv, Some(&sums), sums.len());
        t.append_serializable_element(b"aux info", &self.proof.sc_aux_info).unwrap();
        let mut point = vec![];
        for m in &self.proof.sc_proof.proofs {
            t.append_serializable_element(b"prover msg", m).unwrap();
            point.push(t.get_and_append_challenge(b"Internal round").unwrap());
        }
        point == self.proof.sc_proof.point
    }
}

/// Columns chosen for the zero claims' challenges of an earlier run of the same program on other columns:
/// if a later run drew the same challenges, the false claims about them would hold.
fn stale<P: Tamper>(prm: &Params<P>, nv: usize, rng: &mut Rng64, rep: &mut Report) -> Result<(), String> {
    let zero = vec![F::from(0u64); 1 << nv];
    let noise = rng.fields::<F>(1 << nv);
    let mut run = |a: &[F], b: &[F]| -> Result<(ProverTracker<E, P>, Vec<TrackerID>, Result<(), String>), String> {
        let mut pt: PT<P> = ProverTrackerRef::new_from_pcs_params(prm.pp.clone());
        let mut ids = vec![];
        for c in [&noise[..], a, b] {
            ids.push(guard_res(|| pt.track_and_commit_poly(mle(c)))?.id);
        }
        for i in &ids[1..] {
            guard(|| pt.add_zerocheck_claim(*i))?;
        }
        let proof = match guard(|| pt.compile_proof())? {
            Ok(p) => p,
            // a build that checks its own claims refuses to make the proof
            Err(e) => return Ok((pt.clone_underlying_tracker(), ids, Err(format!("compile: {}", e)))),
        };
        let mut vt: VT<P> = VerifierTrackerRef::new_from_pcs_params(prm.vp.clone());
        vt.set_compiled_proof(proof);
        let mut cs = vec![];
        for _ in &ids {
            let id = vt.get_next_id();
            cs.push(guard(|| vt.transfer_prover_comm(id))?.id);
        }
        for i in &cs[1..] {
            guard(|| vt.add_zerocheck_claim(*i))?;
        }
        Ok((pt.clone_underlying_tracker(), ids, guard_res(|| vt.verify_claims())))
    };
    let (pu, ids, r) = run(&zero, &zero)?;
    r.map_err(|e| format!("two true zero claims are rejected: {}", e))?;
    // what the prover drew: the point of its eq polynomial, the claims' coefficients
    let mut found = None;
    for (i, p) in &pu.materialized_polys {
        if ids.contains(i) || p.num_vars() != nv {
            continue;
        }
        let e = p.to_evaluations();
        let pt: Vec<F> = (0..nv).map(|k| e.iter().enumerate().filter(|(x, _)| (x >> k) & 1 == 1).map(|(_, v)| *v).sum()).collect();
        let eq: Vec<F> = (0..1usize << nv)
            .map(|x| (0..nv).map(|k| if (x >> k) & 1 == 1 { pt[k] } else { F::from(1u64) - pt[k] }).product())
            .collect();
        if eq == e && pt.iter().any(|v| *v != F::from(0u64)) {
            found = Some((*i, e));
        }
    }
    let (eq_id, e) = match found {
        Some(x) => x,
        None => {
            rep.stat("stale_dead");
            return Ok(());
        }
    };
    let panics = |r: &Result<(), String>| matches!(r, Err(e) if e.starts_with("panic"));
    let (i, j) = {
        let i = rng.below(1 << nv) as usize;
        (i, (i + 1 + rng.below((1 << nv) - 1) as usize) % (1 << nv))
    };
    let mut tries: Vec<(&str, Vec<F>, Vec<F>)> = vec![];
    let mut c = zero.clone();
    c[i] = e[j];
    c[j] = -e[i];
    tries.push(("the point", c.clone(), zero.clone()));
    tries.push(("the point", zero.clone(), c));
    // a column that a point with equal or few distinct coordinates cannot tell from zero
    if nv > 1 {
        let mut c = zero.clone();
        c[1] = F::from(1u64);
        c[2] = -F::from(1u64);
        tries.push(("a point of equal coordinates", c, zero.clone()));
    }
    let coef = |id: TrackerID| {
        pu.virtual_polys.values().flatten().find(|(_, m)| m.len() == 2 && m.contains(&id) && m.contains(&eq_id)).map(|(c, _)| *c)
    };
    if let (Some(k1), Some(k2)) = (coef(ids[1]), coef(ids[2])) {
        let g = rng.fields::<F>(1 << nv);
        tries.push(("the coefficients", g.iter().map(|v| *v * k2).collect(), g.iter().map(|v| -*v * k1).collect()));
        rep.stat("stale_coefs");
    }
    let g = rng.fields::<F>(1 << nv);
    tries.push(("equal coefficients", g.clone(), g.iter().map(|v| -*v).collect()));
    for (what, a, b) in tries {
        rep.stat("stale");
        let (_, _, r) = run(&a, &b)?;
        if panics(&r) {
            return Err(format!("columns chosen for {}: the verifier panics: {}", what, r.unwrap_err()));
        }
        if r.is_ok() {
            return Err(format!("false zero claims about columns chosen for {} of an earlier run are accepted", what));
        }
    }
    Ok(())
}

fn one<P: Tamper>(prm: &Params<P>, case: &Value, seed: u64, k: u64, fab: bool, rep: &mut Report) -> Result<(), String> {
    let mut base = Base::new(prm, case, seed, k)?;
    let honest = base.verifier(&base.proof, &Hist::default())?;
    base.honest_sums = honest.sum_check_claims.iter().map(|c| c.claimed_sum).collect();
    {
        let mut ut = honest.clone();
        guard_res(|| ut.verify_claims()).map_err(|e| format!("the honest proof is rejected: {}", e))?;
    }
    // both sides end with the same transcript as far as the sumcheck point shows
    let mut rng = Rng64::new(seed, 31 + k);
    let panics = |r: &Result<(), String>| matches!(r, Err(e) if e.starts_with("panic"));
    let name = |a: &Value| {
        let mut v = vec![];
        for f in ["hist", "comm", "claims", "sum", "aux", "shape", "point", "open"] {
            if a[f] != "h" {
                v.push(format!("{}={}", f, a[f].as_str().unwrap()));
            }
        }
        for m in arr(&a["msgs"]) {
            if m != "h" {
                v.push(format!("msg={}", m.as_str().unwrap()));
            }
        }
        v.join("+")
    };
    for a in arr(&case["atks"]) {
        let r = base.tampered(&a, &mut rng)?;
        let (note, r) = match r {
            None => {
                rep.stat("unread");
                continue;
            }
            Some(x) => x,
        };
        rep.stat("attacks");
        let nm = name(&a);
        if !nm.contains('+') {
            rep.stat(&format!("single.{}", nm));
        }
        if panics(&r) {
            return Err(format!("attack {} ({}): the verifier panics: {}", nm, note, r.unwrap_err()));
        }
        let (want, design) = (a["expect"] == "accept", a["design"] == "accept");
        // the point a prover writes down next to its messages is not part of the statement: either verdict is sound
        if nm == "point=x" {
            continue;
        }
        if r.is_ok() != want {
            if r.is_ok() && design {
                rep.known("no-final-sumcheck-check", format!("attack {} ({}) is accepted", nm, note));
                continue;
            }
            return Err(format!(
                "attack {} ({}): {}, specified {}",
                nm,
                note,
                match &r {
                    Ok(()) => "accepted".to_string(),
                    Err(e) => format!("rejected ({})", e.chars().take(120).collect::<String>()),
                },
                a["expect"]
            ));
        }
    }
    // the adaptive adversary
    rep.stat(if base.alive(&honest) { "adaptive_alive" } else { "adaptive_dead" });
    for stale in [false, true] {
        if let Some(r) = base.cancel(&honest, stale, &mut rng) {
            rep.stat("adaptive_cancel");
            if panics(&r) {
                return Err(format!("cancelling sums: the verifier panics: {}", r.unwrap_err()));
            }
            if r.is_ok() {
                return Err(format!("two false claimed sums that cancel under challenges drawn {} are accepted", if stale { "for the true sums" } else { "without the sums" }));
            }
        }
    }
    if let Some(r) = base.reprove(&honest, 2, &mut rng) {
        rep.stat(if r.is_ok() { "reprove_alive" } else { "reprove_dead" });
    }
    for stated in [0, 1] {
        if let Some(r) = base.reprove(&honest, stated, &mut rng) {
            rep.stat("adaptive_reprove");
            if panics(&r) {
                return Err(format!("reproved sums: the verifier panics: {}", r.unwrap_err()));
            }
            if r.is_ok() {
                return Err(format!("false sums chosen after the claims' challenges and {} are accepted", ["stated after them", "never stated"][stated]));
            }
        }
    }
    stale(prm, base.nv.min(4), &mut rng, rep)?;
    for values in if fab { vec![false, true] } else { vec![] } {
        if let Some(r) = base.fabricate(&honest, values, &mut rng) {
            rep.stat("adaptive_fabricate");
            if panics(&r) {
                return Err(format!("fabricated rounds: the verifier panics: {}", r.unwrap_err()));
            }
            if r.is_ok() {
                rep.known("no-final-sumcheck-check", "fabricated round messages get a false claim accepted".into());
            }
        }
    }
    Ok(())
}

pub fn run(cases: &[Value], seed: u64, kzg: bool) -> Report {
    let mut rep = Report::default();
    let mock = Params::<MockPCS> { pp: (), vp: () };
    let kz: Option<Params<Kzg>> = if kzg { Some(kzg_params(13)) } else { None };
    for (k, case) in cases.iter().enumerate() {
        rep.case();
        if k % (cases.len() / 2 + 1) == 0 {
            rep.sample(json!({"in": case["in"], "steps": case["steps"], "attacks": arr(&case["atks"]).len(), "first": arr(&case["atks"]).get(0)}));
        }
        let fab = case["atks"].as_array().map_or(true, |a| !a.is_empty());
        let r = match &kz {
            Some(p) => one(p, case, seed, k as u64, fab, &mut rep),
            None => one(&mock, case, seed, k as u64, fab, &mut rep),
        };
        if let Err(e) = r {
            if e.contains("case error") {
                panic!("{}", e);
            }
            rep.violate(case, e);
        }
    }
    rep
}
