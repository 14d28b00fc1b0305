//! `conform pcs`: commit/open/verify histories with substitutions on the real KZG, single and batched.
use crate::iops::E;
use crate::kzg::Kzg;
use crate::sumcheck::{lift, uz};
use crate::util::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_poly::DenseMultilinearExtension;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use zk_sql::arithmetic::build_eq_x_r_vec;
use zk_sql::subroutines::poly_iop::structs::IOPProof;
use zk_sql::subroutines::verif_hooks::{batch_proof, batch_proof_parts, round_evaluations, round_message};
use zk_sql::subroutines::{BatchProof, MultilinearKzgProof, PCSError, PolynomialCommitmentScheme};
use zk_sql::transcript::IOPTranscript;

type Pp = <Kzg as PolynomialCommitmentScheme<E>>::ProverParam;
type Vp = <Kzg as PolynomialCommitmentScheme<E>>::VerifierParam;
type Srs = <Kzg as PolynomialCommitmentScheme<E>>::SRS;
type Comm = <Kzg as PolynomialCommitmentScheme<E>>::Commitment;
type G1 = ark_bls12_381::G1Affine;

#[derive(Default)]
struct Pool {
    srs: HashMap<usize, Srs>,
    trimmed: HashMap<(usize, usize), (Pp, Vp)>,
}
impl Pool {
    fn srs(&mut self, n: usize) -> &Srs {
        self.srs.entry(n).or_insert_with(|| {
            let mut rng = ark_std::test_rng();
            Kzg::gen_srs_for_testing(&mut rng, n).expect("srs")
        })
    }
    fn get(&mut self, n: usize, m: usize) -> (Pp, Vp) {
        if !self.trimmed.contains_key(&(n, m)) {
            let t = Kzg::trim(self.srs(n), None, Some(m)).expect("trim");
            self.trimmed.insert((n, m), t);
        }
        self.trimmed[&(n, m)].clone()
    }
}

fn col(v: &Value) -> Vec<F> {
    ints(v).iter().map(|x| lift(*x)).collect()
}
fn mle(c: &[F]) -> DenseMultilinearExtension<F> {
    DenseMultilinearExtension::from_evaluations_slice(log2(c.len()), c)
}
/// coordinates of a generic case: integers mapped injectively to random field elements
fn coords(v: &Value, rnd: bool, salt: u64) -> Vec<F> {
    ints(v)
        .iter()
        .enumerate()
        .map(|(i, x)| if rnd { Rng64::new(salt, (*x as u64) * 31 + i as u64).field() } else { lift(*x) })
        .collect()
}

fn verdict(r: Result<Result<bool, PCSError>, String>) -> Result<&'static str, String> {
    match r {
        Ok(Ok(true)) => Ok("accept"),
        Ok(Ok(false)) | Ok(Err(_)) => Ok("reject"),
        Err(p) => Err(format!("panics: {}", p)),
    }
}
fn must_err<T>(r: Result<Result<T, PCSError>, String>, what: &str) -> Result<(), String> {
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{}: not an error", what)),
        Err(p) => Err(format!("{}: panics: {}", what, p)),
    }
}

fn single(pool: &mut Pool, case: &Value, salt: u64) -> Result<(), String> {
    let (m, pm, vm) = (uz(&case["srs"]), uz(&case["pm"]), uz(&case["vm"]));
    let tag = case["tag"].as_str().unwrap();
    let rnd = case["rnd"].as_bool().unwrap();
    match case["op"].as_str().unwrap() {
        "srs0" => {
            let mut rng = ark_std::test_rng();
            return must_err(guard(|| Kzg::gen_srs_for_testing(&mut rng, 0)), tag);
        }
        "trim" => {
            must_err(guard(|| Kzg::trim(pool.srs(m), None, None)), "trim without a size")?;
            let k = uz(&case["m"]);
            return must_err(guard(|| Kzg::trim(pool.srs(m), None, Some(k))), tag);
        }
        _ => {}
    }
    let (pp, _) = pool.get(m, pm);
    let (_, vp) = pool.get(m, vm);
    let (full, _) = pool.get(m, m);
    match case["op"].as_str().unwrap() {
        "commit" => must_err(guard(|| Kzg::commit(&pp, &mle(&col(&case["col"])))), tag),
        "open" => must_err(guard(|| Kzg::open(&pp, &mle(&col(&case["col"])), &col(&case["zz"]))), tag),
        "same" => {
            let a = guard_res(|| Kzg::commit(&full, &mle(&col(&case["f"]))))?;
            let b = guard_res(|| Kzg::commit(&full, &mle(&col(&case["g"]))))?;
            if (a == b) != (case["expect"] == "same") {
                return Err(format!("commitments are {}, specified {}", if a == b { "the same" } else { "different" }, case["expect"]));
            }
            Ok(())
        }
        "verify" => {
            let f = col(&case["f"]);
            let z = coords(&case["z"], rnd, salt);
            let (proof, val): (MultilinearKzgProof<E>, F) = guard_res(|| Kzg::open(&pp, &mle(&f), &z)).map_err(|e| format!("open: {}", e))?;
            let truth = mle_eval(&f, &z);
            if val != truth {
                return Err("open returns another value than the polynomial's".into());
            }
            let cf = guard_res(|| Kzg::commit(&pp, &mle(&f))).map_err(|e| format!("commit: {}", e))?;
            if cf != Kzg::commit(&full, &mle(&f)).unwrap() {
                return Err("the commitment depends on the size of the parameters".into());
            }
            let c: Comm = guard_res(|| Kzg::commit(&full, &mle(&col(&case["C"])))).map_err(|e| format!("commit: {}", e))?;
            let zz = coords(&case["zz"], rnd, salt);
            let v: F = if rnd { truth + lift::<F>(case["dv"].as_i64().unwrap()) } else { lift(case["v"].as_i64().unwrap()) };
            let mut q: Vec<G1> = vec![];
            for x in arr(&case["q"]) {
                let h = uz(&x["h"]);
                if h > 0 {
                    match proof.proofs.get(h - 1) {
                        Some(g) => q.push(*g),
                        None => return Err("an opening proof has fewer quotients than variables".into()),
                    }
                } else {
                    q.push(guard_res(|| Kzg::commit(&full, &mle(&col(&x["p"]))))?.0);
                }
            }
            let pr = MultilinearKzgProof { proofs: q };
            let got = verdict(guard(|| Kzg::verify(&vp, &c, &zz, &v, &pr))).map_err(|e| format!("verify ({}) {}", tag, e))?;
            if got != case["expect"].as_str().unwrap() {
                return Err(format!("verify ({}): {}, specified {}", tag, got, case["expect"]));
            }
            Ok(())
        }
        o => panic!("case error: op {}", o),
    }
}

fn tr(salt: u64) -> IOPTranscript<F> {
    let mut t = IOPTranscript::new(b"batch");
    t.append_message(b"salt", &salt.to_le_bytes()).unwrap();
    t
}

fn batch(pool: &mut Pool, case: &Value, salt: u64) -> Result<(), String> {
    let m = uz(&case["srs"]);
    let n = uz(&case["n"]);
    let rnd = case["rnd"].as_bool().unwrap();
    let (pp, vp) = pool.get(m, m);
    let attack = case["attack"].as_str().unwrap();
    // entries that share a polynomial or point share the object, as in a real batch
    let mut by_ix: HashMap<i64, Arc<DenseMultilinearExtension<F>>> = HashMap::new();
    let ix = ints(&case["ix"]);
    let mut rng = Rng64::new(salt, 5);
    let mut polys: Vec<Arc<DenseMultilinearExtension<F>>> = arr(&case["polys"])
        .iter()
        .zip(&ix)
        .map(|(c, i)| by_ix.entry(*i).or_insert_with(|| Arc::new(mle(&col(c)))).clone())
        .collect();
    let mut points: Vec<Vec<F>> = arr(&case["pts"]).iter().map(|p| coords(p, rnd, salt)).collect();
    let k = polys.len();
    let mut evals: Vec<F> = polys.iter().zip(&points).map(|(p, z)| mle_eval(&p.evaluations, z)).collect();
    if !rnd && evals != ints(&case["evals"]).iter().map(|x| lift(*x)).collect::<Vec<F>>() {
        panic!("case error: evaluations differ from the specification's");
    }
    let (i, j, c) = (uz(&case["i"]) - 1, uz(&case["j"]) - 1, uz(&case["c"]) - 1);
    let d: F = if rnd { rng.field() } else { lift(case["d"].as_i64().unwrap()) };
    let mut comms: Vec<Comm> = polys.iter().map(|p| guard_res(|| Kzg::commit(&pp, p.as_ref()))).collect::<Result<_, _>>()?;
    let truth = evals.clone();
    let open = |polys: &[Arc<DenseMultilinearExtension<F>>], points: &[Vec<F>], evals: &[F]| {
        let mut t = tr(salt);
        guard(|| Kzg::multi_open(&pp, polys, points, evals, &mut t))
    };
    let wrong_len = |v: &[F]| v[..v.len() - 1].to_vec();
    match attack {
        "open_empty" => return must_err(open(&[], &[], &[]), attack),
        "open_points" => return must_err(open(&polys, &points[..k - 1], &evals), attack),
        "open_evals" => return must_err(open(&polys, &points, &evals[..k - 1]), attack),
        "open_too_large" => {
            let big: Vec<_> = polys.iter().map(|_| Arc::new(mle(&rng.fields(1 << (m + 1))))).collect();
            let pts: Vec<Vec<F>> = big.iter().map(|_| rng.fields(m + 1)).collect();
            let ev: Vec<F> = big.iter().zip(&pts).map(|(p, z)| mle_eval(&p.evaluations, z)).collect();
            return must_err(open(&big, &pts, &ev), attack);
        }
        "open_mixed" => {
            polys.push(Arc::new(mle(&rng.fields(1 << (n + 1)))));
            points.push(rng.fields(n + 1));
            let e = mle_eval(&polys[k].evaluations, &points[k]);
            evals.push(e);
            return must_err(open(&polys, &points, &evals), attack);
        }
        "open_point_len" => {
            points[i] = wrong_len(&points[i]);
            return must_err(open(&polys, &points, &evals), attack);
        }
        "eval_claimed" => evals[i] += d,
        "evals_cancel_claimed" => {
            evals[i] += d;
            evals[j] -= d;
        }
        _ => {}
    }
    // a prover who states false evaluations may also be refused here
    let proof: BatchProof<E, Kzg> = match open(&polys, &points, &evals) {
        Ok(Ok(p)) => p,
        Ok(Err(_)) if attack.ends_with("_claimed") => return Ok(()),
        Ok(Err(e)) => return Err(format!("multi_open: {}", e)),
        Err(p) => return Err(format!("multi_open panics: {}", p)),
    };
    let (mut sc, mut ev, mut g) = batch_proof_parts(&proof);
    let mut msgs: Vec<Vec<F>> = sc.proofs.iter().map(round_evaluations).collect();
    let mut vt = tr(salt);
    let r = uz(&case["r"]) - 1;
    match attack {
        "eval" => ev[i] += d,
        "evals_cancel" => {
            ev[i] += d;
            ev[j] -= d;
        }
        "point" => points[i][c] += lift::<F>(case["d"].as_i64().unwrap()),
        "comm" => comms[i] = Kzg::commit(&pp, &mle(&col(&case["g"]))).unwrap(),
        "swap_comm" => comms.swap(i, j),
        "swap_point" => points.swap(i, j),
        "swap_eval" => ev.swap(i, j),
        "drop_eval" => {
            ev.pop();
        }
        "add_eval" => ev.push(F::from(0u64)),
        "drop_comm" => {
            comms.pop();
        }
        "drop_point" => {
            points.pop();
        }
        "sc" => {
            let e = msgs[r].len();
            msgs[r][uz(&case["kk"]) % e] += d;
        }
        "sc_rounds" => {
            let l = msgs[0].clone();
            msgs.push(l);
        }
        "sc_deg" => {
            msgs[r].pop();
        }
        "sc_point" => sc.point[c] += d,
        "sc_point_len" => {
            sc.point.pop();
        }
        "quot" => g.proofs[r] = (g.proofs[r].into_group() + G1::generator() * d).into_affine(),
        "quot_drop" => {
            g.proofs.pop();
        }
        "quot_add" => g.proofs.push(G1::zero()),
        "transcript" => vt = tr(salt ^ 1),
        "verify_empty" => {
            comms.clear();
            points.clear();
            ev.clear();
        }
        "verify_point_len" => points[i] = wrong_len(&points[i]),
        // evaluations chosen so that their batching under a known t cancels
        "adaptive" | "adaptive_blind" => {
            let mut t0 = tr(salt);
            if attack == "adaptive" {
                // t as it was when the true evaluations were claimed
                t0.append_serializable_element(b"evals", &truth).unwrap();
            }
            let ell = ((k as f64).log2().ceil() as usize).max(1);
            let t = t0.get_and_append_challenge_vectors(b"t", ell).unwrap();
            let eq = build_eq_x_r_vec(&t).unwrap();
            let (a, b) = if i == j { (0, 1) } else { (i, j) };
            ev[a] += eq[b] * d;
            ev[b] -= eq[a] * d;
            if attack == "adaptive_blind" {
                // the rest of the proof as an attacker would make it for these evaluations
                let p2 = match open(&polys, &points, &ev) {
                    Ok(Ok(p)) => p,
                    _ => return Ok(()),
                };
                let (s2, e2, g2) = batch_proof_parts(&p2);
                sc = s2.clone();
                ev = e2;
                g = g2;
                msgs = s2.proofs.iter().map(round_evaluations).collect();
            }
        }
        _ => {}
    }
    let forged = batch_proof::<E, Kzg>(IOPProof { point: sc.point, proofs: msgs.into_iter().map(round_message).collect() }, ev, g);
    let got = verdict(guard(|| Kzg::batch_verify(&vp, &comms, &points, &forged, &mut vt))).map_err(|e| format!("batch_verify ({}) {}", attack, e))?;
    let want = match case["expect"].as_str().unwrap() {
        "any" => return Ok(()),
        "err" => "reject",
        e => e,
    };
    if got != want {
        return Err(format!("batch_verify ({}): {}, specified {}", attack, got, want));
    }
    if attack == "none" {
        // both sides leave their transcripts in the same state
        let mut t1 = tr(salt);
        let _ = Kzg::multi_open(&pp, &polys, &points, &evals, &mut t1);
        if t1.get_and_append_challenge(b"after").ok() != vt.get_and_append_challenge(b"after").ok() {
            return Err("prover and verifier transcripts differ after a batch".into());
        }
    }
    Ok(())
}

pub fn run(cases: &[Value], seed: u64, _kzg: bool) -> Report {
    let mut rep = Report::default();
    let mut pool = Pool::default();
    for (n, case) in cases.iter().enumerate() {
        rep.case();
        let op = case["op"].as_str().unwrap();
        let tag = case["tag"].as_str().or(case["attack"].as_str()).unwrap();
        rep.stat(&format!("{}.{}.{}", if op == "batch" { "batch" } else { "single" }, tag, case["expect"].as_str().unwrap()));
        if n % (cases.len() / 2 + 1) == 0 {
            rep.sample(json!({"op": op, "what": tag, "expect": case["expect"], "n": case["n"]}));
        }
        let salt = seed.wrapping_mul(7919).wrapping_add(n as u64);
        let r = if op == "batch" { batch(&mut pool, case, salt) } else { single(&mut pool, case, salt) };
        if let Err(e) = r {
            if e.contains("case error") {
                panic!("{}", e);
            }
            rep.violate(case, e);
        }
    }
    rep
}
