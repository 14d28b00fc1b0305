//! `conform sumcheck`: run the real sumcheck and zerocheck; record runs over a small prime field for
//! TLC to validate, and compare verdicts over the production field with the specification's.
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ff::{Fp64, MontBackend, MontConfig, PrimeField};
use ark_poly::DenseMultilinearExtension;
use serde_json::{json, Value};
use std::sync::Arc;
use zk_sql::arithmetic::{VPAuxInfo, VirtualPolynomial};
use zk_sql::subroutines::poly_iop::structs::{IOPProof, IOPProverMessage, IOPProverState, IOPVerifierState};
use zk_sql::subroutines::poly_iop::sum_check::{SumCheck, SumCheckProver, SumCheckVerifier};
use zk_sql::subroutines::poly_iop::zero_check::ZeroCheck;
use zk_sql::subroutines::poly_iop::PolyIOP;
use zk_sql::subroutines::verif_hooks::{round_evaluations, round_message};
use zk_sql::transcript::IOPTranscript;

#[derive(MontConfig)]
#[modulus = "32749"]
#[generator = "2"]
pub struct F15Config;
pub type F15 = Fp64<MontBackend<F15Config, 1>>;
pub const P15: i64 = 32749;

pub fn to_i(x: &F15) -> i64 {
    x.into_bigint().0[0] as i64
}
fn is_(v: &[F15]) -> Vec<i64> {
    v.iter().map(to_i).collect()
}
/// residues are read as numbers around zero, so that the same case makes sense over any field
pub fn lift<T: PrimeField>(x: i64) -> T {
    if 2 * x > P15 {
        fint(x - P15)
    } else {
        fint(x)
    }
}
pub fn uz(v: &Value) -> usize {
    v.as_u64().expect("case error: number") as usize
}

pub fn build<T: PrimeField>(nv: usize, cols: &[Vec<T>], prods: &Value) -> Result<VirtualPolynomial<T>, String> {
    let mles: Vec<_> = cols
        .iter()
        .map(|c| Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, c.clone())))
        .collect();
    let mut vp = VirtualPolynomial::new(nv);
    for p in arr(prods) {
        let list: Vec<_> = ints(&p["p"]).iter().map(|i| mles[*i as usize - 1].clone()).collect();
        vp.add_mle_list(list, lift(p["c"].as_i64().unwrap())).map_err(|e| format!("add_mle_list: {}", e))?;
    }
    Ok(vp)
}
/// straight from the definition
pub fn vp_eval<T: PrimeField>(cols: &[Vec<T>], prods: &Value, pt: &[T]) -> T {
    let at: Vec<T> = cols.iter().map(|c| mle_eval(c, pt)).collect();
    arr(prods)
        .iter()
        .map(|p| ints(&p["p"]).iter().map(|i| at[*i as usize - 1]).product::<T>() * lift::<T>(p["c"].as_i64().unwrap()))
        .sum()
}
fn vp_sum<T: PrimeField>(cols: &[Vec<T>], prods: &Value) -> T {
    let mut s = T::zero();
    for k in 0..cols[0].len() {
        for p in arr(prods) {
            s += ints(&p["p"]).iter().map(|i| cols[*i as usize - 1][k]).product::<T>() * lift::<T>(p["c"].as_i64().unwrap());
        }
    }
    s
}
fn transcript<T: PrimeField>(salt: u64) -> IOPTranscript<T> {
    let mut t = IOPTranscript::<T>::new(b"conformance");
    t.append_message(b"salt", &salt.to_le_bytes()).unwrap();
    t
}

enum Out {
    Rec(Value),
    Ok,
    Bad(String),
    /// a challenge fell on an interpolation point: not a statement about the code, try other challenges
    Again,
}

fn tampered<T: PrimeField>(evs: &[T], round: usize, tampers: &[Value]) -> Vec<T> {
    let mut e = evs.to_vec();
    for t in tampers {
        if uz(&t["r"]) == round {
            let k = uz(&t["k"]);
            if k < e.len() {
                e[k] += lift::<T>(t["d"].as_i64().unwrap());
            }
        }
    }
    e
}

fn inter(case: &Value, salt: u64) -> Out {
    let nv = uz(&case["nv"]);
    let deg = uz(&case["deg"]);
    let cols: Vec<Vec<F15>> = arr(&case["cols"]).iter().map(fvec).collect();
    let prods = &case["prods"];
    let mal = case["mal"].as_str().unwrap();
    let tampers = arr(&case["tampers"]);
    let vp = match build(nv, &cols, prods) {
        Ok(v) => v,
        Err(e) => return Out::Bad(e),
    };
    let aux = vp.aux_info.clone();
    if aux.max_degree != deg || aux.num_variables != nv {
        return Out::Bad(format!("aux info says {} variables, degree {}", aux.num_variables, aux.max_degree));
    }
    let claim = vp_sum(&cols, prods) + fint::<F15>(case["delta"].as_i64().unwrap());
    let mut tr = transcript::<F15>(salt);
    let mut pst = match guard_res(|| IOPProverState::prover_init(&vp)) {
        Ok(p) => p,
        Err(e) => return Out::Bad(format!("prover_init: {}", e)),
    };
    let mut vst = IOPVerifierState::<F15>::verifier_init(&aux);
    let (mut made, mut sent, mut chals): (Vec<Vec<F15>>, Vec<Vec<F15>>, Vec<F15>) = (vec![], vec![], vec![]);
    let mut chal = None;
    macro_rules! expect_err {
        ($e:expr, $what:expr) => {
            match guard(|| $e.is_err()) {
                Ok(true) => {}
                Ok(false) => return Out::Bad(format!("{} is not reported as an error", $what)),
                Err(p) => return Out::Bad(format!("{} panics: {}", $what, p)),
            }
        };
    }
    if mal == "prover_first" {
        expect_err!(pst.prove_round_and_update_state(&Some(fint(5))), "a challenge before the first round");
        return Out::Ok;
    }
    let rounds = if mal == "early" { nv - 1 } else { nv };
    for round in 1..=rounds {
        if mal == "prover_nochal" && round == nv {
            expect_err!(pst.prove_round_and_update_state(&None), "a round without the challenge of the previous one");
            return Out::Ok;
        }
        let m: IOPProverMessage<F15> = match guard_res(|| pst.prove_round_and_update_state(&chal)) {
            Ok(m) => m,
            Err(e) => return Out::Bad(format!("prover round {}: {}", round, e)),
        };
        let e = round_evaluations(&m);
        let mut s = tampered(&e, round, &tampers);
        made.push(e);
        if round == nv {
            match mal {
                "short" => {
                    s.pop();
                }
                "long" => s.push(fint(0)),
                "empty" => s.clear(),
                _ => {}
            }
        }
        let c = match guard_res(|| vst.verify_round_and_update_state(&round_message(s.clone()), &mut tr)) {
            Ok(c) => c,
            Err(e) => return Out::Bad(format!("verifier round {}: {}", round, e)),
        };
        sent.push(s);
        chals.push(c);
        chal = Some(c);
        if to_i(&c) <= deg as i64 + 1 {
            return Out::Again;
        }
    }
    if mal == "prover_extra" {
        expect_err!(pst.prove_round_and_update_state(&chal), "a round after the last one");
        return Out::Ok;
    }
    if mal == "extra" {
        expect_err!(vst.verify_round_and_update_state(&round_message(sent[0].clone()), &mut tr), "a verifier round after the last one");
    }
    let sub = guard(|| vst.check_and_generate_subclaim(&claim));
    if mal == "early" {
        return match sub {
            Ok(Err(_)) => Out::Ok,
            Ok(Ok(_)) => Out::Bad("deciding before the last round is not an error".into()),
            Err(p) => Out::Bad(format!("deciding before the last round panics: {}", p)),
        };
    }
    let (verdict, point, expected) = match &sub {
        Ok(Ok(s)) => ("accept", is_(&s.point), to_i(&s.expected_evaluation)),
        Ok(Err(_)) => ("reject", vec![], 0),
        Err(p) => return Out::Bad(format!("the verifier panics: {}", p)),
    };
    Out::Rec(json!({
        "kind": "inter", "cols": cols.iter().map(|c| is_(c)).collect::<Vec<_>>(), "prods": prods, "claim": to_i(&claim),
        "made": made.iter().map(|c| is_(c)).collect::<Vec<_>>(), "sent": sent.iter().map(|c| is_(c)).collect::<Vec<_>>(),
        "chals": is_(&chals), "verdict": verdict, "point": point, "expected": expected, "r": Vec::<i64>::new(),
    }))
}

/// honest non-interactive runs over the small field, sumcheck ("prove") or zerocheck ("zc")
fn honest(case: &Value, salt: u64) -> Out {
    let nv = uz(&case["nv"]);
    let deg = uz(&case["deg"]);
    let zc = case["kind"] == "zc";
    let cols: Vec<Vec<F15>> = arr(&case["cols"]).iter().map(fvec).collect();
    let prods = &case["prods"];
    let vp = match build(nv, &cols, prods) {
        Ok(v) => v,
        Err(e) => return Out::Bad(e),
    };
    let claim = vp_sum(&cols, prods) + fint::<F15>(case["delta"].as_i64().unwrap());
    let mut tr = transcript::<F15>(salt);
    let proof = match guard_res(|| if zc { <PolyIOP<F15> as ZeroCheck<F15>>::prove(&vp, &mut tr) } else { <PolyIOP<F15> as SumCheck<F15>>::prove(&vp, &mut tr) }) {
        Ok(p) => p,
        Err(e) => return Out::Bad(format!("prove: {}", e)),
    };
    if proof.point.iter().any(|c| to_i(c) <= deg as i64 + 2) {
        return Out::Again;
    }
    let mut tv = transcript::<F15>(salt);
    let (verdict, point, expected, r) = if zc {
        match guard(|| <PolyIOP<F15> as ZeroCheck<F15>>::verify(&proof, &vp.aux_info, &mut tv)) {
            Ok(Ok(s)) => ("accept", is_(&s.point), to_i(&s.expected_evaluation), is_(&s.init_challenge)),
            Ok(Err(e)) => return Out::Bad(format!("an honest zerocheck of a vanishing polynomial is rejected: {}", e)),
            Err(_) => return Out::Again, // eq(point, r) = 0 has no inverse
        }
    } else {
        match guard(|| <PolyIOP<F15> as SumCheck<F15>>::verify(claim, &proof, &vp.aux_info, &mut tv)) {
            Ok(Ok(s)) => ("accept", is_(&s.point), to_i(&s.expected_evaluation), vec![]),
            Ok(Err(_)) => ("reject", vec![], 0, vec![]),
            Err(p) => return Out::Bad(format!("the verifier panics: {}", p)),
        }
    };
    let msgs: Vec<Vec<i64>> = proof.proofs.iter().map(|m| is_(&round_evaluations(m))).collect();
    if !zc {
        let s = <PolyIOP<F15> as SumCheck<F15>>::extract_sum(&proof);
        if s != vp_sum(&cols, prods) {
            return Out::Bad("extract_sum is not the sum over the hypercube".into());
        }
    }
    Out::Rec(json!({
        "kind": case["kind"], "cols": cols.iter().map(|c| is_(c)).collect::<Vec<_>>(), "prods": prods, "claim": to_i(&claim),
        "made": msgs, "sent": msgs, "chals": is_(&proof.point), "verdict": verdict, "point": point, "expected": expected, "r": r,
    }))
}

/// verdicts over the production field
fn big(case: &Value, salt: u64) -> Out {
    let nv = uz(&case["nv"]);
    let zc = case["kind"] == "zcfr";
    let mut rng = Rng64::new(salt, 77);
    let mut cols: Vec<Vec<Fr>> = arr(&case["cols"]).iter().map(|c| ints(c).iter().map(|x| lift(*x)).collect()).collect();
    if !zc {
        for c in cols.iter_mut() {
            *c = rng.fields(1 << nv);
        }
    }
    let prods = &case["prods"];
    let mal = case["mal"].as_str().unwrap();
    let tampers = arr(&case["tampers"]);
    let vp = match build(nv, &cols, prods) {
        Ok(v) => v,
        Err(e) => return Out::Bad(e),
    };
    let mut tr = transcript::<Fr>(salt);
    let proof = match guard_res(|| if zc { <PolyIOP<Fr> as ZeroCheck<Fr>>::prove(&vp, &mut tr) } else { <PolyIOP<Fr> as SumCheck<Fr>>::prove(&vp, &mut tr) }) {
        Ok(p) => p,
        Err(e) => return Out::Bad(format!("prove: {}", e)),
    };
    let mut aux: VPAuxInfo<Fr> = vp.aux_info.clone();
    let mut evs: Vec<Vec<Fr>> = proof.proofs.iter().map(round_evaluations).collect();
    if evs.len() != nv || evs.iter().any(|e| e.len() != uz(&case["deg"]) + 1 + zc as usize) {
        return Out::Bad("the proof has another number of rounds or evaluations than specified".into());
    }
    for (i, e) in evs.iter_mut().enumerate() {
        *e = tampered(e, i + 1, &tampers);
    }
    let at = (rng.next() as usize) % nv;
    match mal {
        "drop_first" => {
            evs.remove(0);
        }
        "drop_last" => {
            evs.pop();
        }
        "no_rounds" => evs.clear(),
        "add_round" => {
            let d = evs[0].len();
            evs.push(rng.fields(d));
        }
        "dup_round" => {
            let l = evs[nv - 1].clone();
            evs.push(l);
        }
        "short" => {
            evs[at].pop();
        }
        "long" => evs[at].push(Fr::from(0u64)),
        "empty" => evs[at].clear(),
        "one" => evs[at].truncate(1),
        "nv_more" => aux.num_variables += 1,
        "nv_less" => aux.num_variables -= 1,
        "nv_zero" => aux.num_variables = 0,
        "deg_more" => aux.max_degree += 1,
        "deg_less" => aux.max_degree -= 1,
        "deg_zero" => aux.max_degree = 0,
        "swap" => {
            if evs[0] == evs[1] {
                return Out::Ok;
            }
            evs.swap(0, 1);
        }
        _ => {}
    }
    let proof = IOPProof { point: proof.point.clone(), proofs: evs.into_iter().map(round_message).collect() };
    let claim = vp_sum(&cols, prods) + fint::<Fr>(case["delta"].as_i64().unwrap());
    let mut tv = transcript::<Fr>(salt);
    let sub = if zc {
        guard(|| <PolyIOP<Fr> as ZeroCheck<Fr>>::verify(&proof, &aux, &mut tv).map(|s| (s.point, s.expected_evaluation)))
    } else {
        guard(|| <PolyIOP<Fr> as SumCheck<Fr>>::verify(claim, &proof, &aux, &mut tv).map(|s| (s.point, s.expected_evaluation)))
    };
    let expect = case["expect"].as_str().unwrap();
    match (sub, expect) {
        (Err(p), _) => Out::Bad(format!("the verifier panics: {}", p)),
        (Ok(Err(_)), "reject") => Out::Ok,
        (Ok(Ok(_)), "reject") => Out::Bad("accepted, specified to be rejected".into()),
        (Ok(Err(e)), _) => Out::Bad(format!("rejected ({}), specified to be accepted", e)),
        (Ok(Ok((pt, ev))), _) => {
            if pt.len() != nv {
                return Out::Bad("the residual point has another number of coordinates".into());
            }
            let right = ev == vp_eval(&cols, prods, &pt);
            if right != (expect == "accept") {
                return Out::Bad(format!("the residual claim is {}, specified otherwise", right));
            }
            if expect == "accept" && pt != proof.point {
                return Out::Bad("prover and verifier derive different challenges".into());
            }
            Out::Ok
        }
    }
}

pub fn run(cases: &[Value], seed: u64, _kzg: bool) -> Report {
    let mut rep = Report::default();
    for (n, case) in cases.iter().enumerate() {
        rep.case();
        let kind = case["kind"].as_str().unwrap();
        rep.stat(kind);
        if n % (cases.len() / 2 + 1) == 0 {
            rep.sample(json!({"kind": kind, "nv": case["nv"], "prods": case["prods"], "mal": case["mal"], "tampers": case["tampers"], "expect": case["expect"]}));
        }
        let mut done = false;
        for again in 0..4u64 {
            let salt = seed.wrapping_mul(1_000_003).wrapping_add(n as u64 * 8 + again);
            let o = match kind {
                "inter" => inter(case, salt),
                "prove" | "zc" => honest(case, salt),
                "fr" | "zcfr" => big(case, salt),
                k => panic!("case error: kind {}", k),
            };
            match o {
                Out::Again => continue,
                Out::Ok => {}
                Out::Rec(v) => rep.records.push(json!({"rec": v, "case": case})),
                Out::Bad(w) => rep.violate(case, format!("{}: {}", kind, w)),
            }
            done = true;
            break;
        }
        if !done {
            rep.violate(case, format!("{}: panics under every challenge tried", kind));
        }
    }
    rep
}
