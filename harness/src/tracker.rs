//! `conform tracker`: replay programs of tracker operations on both trackers and compare every
//! tracked object with what the specification says it denotes.
use crate::iops::*;
use crate::kzg::kzg_params;
use crate::mock::MockPCS;
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use zk_sql::subroutines::{MultilinearKzgPCS, PolynomialCommitmentScheme};
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hooks::*;

struct Branch<P: PolynomialCommitmentScheme<E>> {
    t: PT<P>,
    env: Vec<PIn<P>>,
    chals: Vec<F>,
}

fn fingerprint<P: PolynomialCommitmentScheme<E>>(t: &PT<P>) -> F {
    let mut c = t.clone_underlying_tracker();
    c.transcript.append_message(b"fp", b"fp").unwrap();
    c.transcript.get_and_append_challenge(b"fingerprint").unwrap()
}

fn step_prover<P: PolynomialCommitmentScheme<E>>(b: &mut Branch<P>, st: &Value) -> Result<Option<String>, String> {
    match st["op"].as_str().unwrap() {
        "chal" => {
            let c = guard_res(|| b.t.get_and_append_challenge(b"prog challenge"))?;
            b.chals.push(c);
        }
        "read" => {
            let i = us(&arr(&st["args"])[0]);
            let e = guard(|| b.env[i].vec().evaluations())?;
            if e != fvec::<F>(&st["p"]["v"]) {
                return Ok(Some(format!("reading object {} gives other rows than specified", i)));
            }
        }
        _ => {
            let Branch { t, env, .. } = b;
            guard_res(|| prove_step(t, env, st))?;
        }
    }
    Ok(None)
}

fn run_case<P: PolynomialCommitmentScheme<E>>(prm: &Params<P>, case: &Value, rep: &mut Report) -> Result<(), String> {
    let steps = arr(&case["steps"]);
    let rc = Rc::new(RefCell::new(ProverTracker::<E, P>::new(prm.pp.clone())));
    let mut brs = vec![Branch { t: ProverTrackerRef::new(rc.clone()), env: vec![], chals: vec![] }];
    let br_of = |st: &Value| st["br"].as_u64().unwrap() as usize;
    for (k, st) in steps.iter().enumerate() {
        if st["op"] == "copy" {
            let mut t = guard(|| brs[0].t.deep_copy()).map_err(|e| format!("deep_copy: {}", e))?;
            // a handle on the copy's interior (burns one identifier in the copy; mirrored below)
            let h = t.track_mat_poly(mle(&[F::from(0u64), F::from(0u64)]));
            let env = brs[0]
                .env
                .iter()
                .map(|o| PIn::Vec(TrackedPoly::new(o.vec().id, o.vec().num_vars(), h.tracker.clone())))
                .collect();
            let chals = brs[0].chals.clone();
            brs.push(Branch { t, env, chals });
            continue;
        }
        let b = br_of(st);
        if let Some(p) = step_prover(&mut brs[b], st).map_err(|e| format!("prover step {} ({}): {}", k, st["op"], e))? {
            return Err(p);
        }
    }
    let probes = arr(&case["probes"]);
    let nbr = brs.len();
    let only = option("--only").unwrap_or_default();
    // ---- the prover's objects
    for round in 0..(if only == "verifier" { 0 } else { 2 }) {
        for pr in &probes {
            let (b, i) = (us(&pr["br"]), us(&pr["at"]));
            let o = brs[b].env[i].vec().clone();
            let nv = us(&pr["nv"]);
            let rows: Vec<F> = fvec(&pr["rows"]);
            let what = format!("branch {} object {}", b, i);
            for x in arr(&pr["pts"]) {
                let pt: Vec<F> = fvec(&x["x"]);
                let want: F = fint(x["p"].as_i64().unwrap());
                let got = guard(|| o.evaluate(&pt)).map_err(|e| format!("{}: evaluate: {}", what, e))?;
                if got != Some(want) {
                    return Err(format!("{}: value at {} is not {} (round {})", what, x["x"], x["p"], round));
                }
                let vp = guard(|| o.to_arithmatic_virtual_poly()).map_err(|e| format!("{}: virtual polynomial: {}", what, e))?;
                if vp.evaluate(&pt).ok() != Some(want) {
                    return Err(format!("{}: its virtual polynomial has another value at {}", what, x["x"]));
                }
                rep.stat("points");
            }
            if o.num_vars() != nv {
                return Err(format!("{}: {} variables reported, {} specified", what, o.num_vars(), nv));
            }
            let got = guard(|| o.evaluations()).map_err(|e| format!("{}: evaluations: {}", what, e))?;
            if got != rows {
                return Err(format!("{}: rows differ from the specification (round {})", what, round));
            }
            for (k, v) in rows.iter().enumerate() {
                if guard(|| o.evaluate(&bool_point(k, nv))) != Ok(Some(*v)) {
                    return Err(format!("{}: value at row {} differs from the specification", what, k));
                }
            }
            rep.stat("objects");
        }
    }
    // ---- branches are independent
    let same = arr(&case["same"]);
    let fps: Vec<F> = brs.iter().map(|b| fingerprint(&b.t)).collect();
    for b in 0..(if only == "verifier" { 0 } else { nbr }) {
        if (fps[b] == fps[0]) != same[b].as_bool().unwrap() {
            return Err(format!("branch {}: its transcript {} the original's, against the specification", b, if fps[b] == fps[0] { "equals" } else { "differs from" }));
        }
        let ut = brs[b].t.clone_underlying_tracker();
        let n = ut.sum_check_claims.len() + ut.zero_check_claims.len();
        if n != us(&case["claims"][b]) {
            return Err(format!("branch {}: {} claims recorded, {} specified", b, n, case["claims"][b]));
        }
    }
    // ---- the verifier mirrors every branch from the start
    for b in 0..(if only == "prover" { 0 } else { nbr }) {
        let pre = brs[b].t.clone_underlying_tracker();
        let mut vt: VT<P> = VerifierTrackerRef::new_from_pcs_params(prm.vp.clone());
        let mut proof = CompiledZKSQLProof::<E, P>::default();
        proof.comms = pre.materialized_comms.clone();
        for c in &pre.sum_check_claims {
            proof.sumcheck_claims.insert(c.label, c.claimed_sum);
        }
        vt.set_compiled_proof(proof);
        let mut venv: Vec<VIn<P>> = vec![];
        let mut chals = vec![];
        let mut on_main = true; // branch 0's steps are ours until the copy
        for (k, st) in steps.iter().enumerate() {
            if st["op"] == "copy" {
                if b > 0 {
                    on_main = false;
                    vt.track_virtual_comm(Box::new(|_| Ok(F::from(0u64))));
                }
                continue;
            }
            let mine = if b == 0 { br_of(st) == 0 } else { (on_main && br_of(st) == 0) || (!on_main && br_of(st) == b) };
            if !mine || st["op"] == "read" {
                continue;
            }
            if st["op"] == "chal" {
                chals.push(guard_res(|| vt.get_and_append_challenge(b"prog challenge")).map_err(|e| format!("verifier step {}: {}", k, e))?);
            } else {
                guard_res(|| verify_step(&mut vt, &mut venv, st, 40)).map_err(|e| format!("verifier step {} ({}): {}", k, st["op"], e))?;
            }
        }
        if chals != brs[b].chals {
            return Err(format!("branch {}: prover and verifier drew different challenges", b));
        }
        {
            let mut c = vt.clone_underlying_tracker();
            c.transcript.append_message(b"fp", b"fp").unwrap();
            if c.transcript.get_and_append_challenge(b"fingerprint").unwrap() != fps[b] {
                return Err(format!("branch {}: prover's and verifier's transcripts differ", b));
            }
        }
        for (i, (p, v)) in brs[b].env.iter().zip(&venv).enumerate() {
            if p.vec().id != v.vec().id {
                return Err(format!("branch {} object {}: prover and verifier give it different identifiers", b, i));
            }
        }
        let ut = vt.clone_underlying_tracker();
        let labels = |v: &VerifierTracker<E, P>| -> (Vec<TrackerID>, Vec<TrackerID>) {
            (v.sum_check_claims.iter().map(|c| c.label).collect(), v.zero_check_claims.iter().map(|c| c.label).collect())
        };
        let plabels: (Vec<TrackerID>, Vec<TrackerID>) =
            (pre.sum_check_claims.iter().map(|c| c.label).collect(), pre.zero_check_claims.iter().map(|c| c.label).collect());
        if labels(&ut) != plabels {
            return Err(format!("branch {}: prover and verifier recorded claims about different objects", b));
        }
        let cols = committed(&pre);
        for pr in &probes {
            if us(&pr["br"]) != b {
                continue;
            }
            let i = us(&pr["at"]);
            let nv = us(&pr["nv"]);
            let id = venv[i].vec().id;
            let mut query = |pt: &[F]| -> Result<F, String> {
                // a mirrored object evaluates its committed columns at pieces of the point
                let q: &RefCell<HashMap<(TrackerID, Vec<F>), F>> = &ut.query_map;
                let mut q = q.borrow_mut();
                q.clear();
                for (cid, e) in &cols {
                    let n = log2(e.len());
                    for s in 0..=pt.len() {
                        if s + n <= pt.len() {
                            let sub = pt[s..s + n].to_vec();
                            let v = mle_eval(e, &sub);
                            q.insert((*cid, sub), v);
                        }
                    }
                }
                drop(q);
                guard_res(|| ut.eval_virtual_comm(id, pt))
            };
            for (k, v) in ints(&pr["rows"]).iter().enumerate() {
                let got = query(&bool_point(k, nv)).map_err(|e| format!("verifier cannot evaluate object {} at row {}: {}", i, k, e))?;
                if got != fint::<F>(*v) {
                    return Err(format!("branch {} object {}: verifier's value at row {} is not {}", b, i, k, v));
                }
            }
            for x in arr(&pr["pts"]) {
                let pt: Vec<F> = fvec(&x["x"]);
                let got = query(&pt).map_err(|e| format!("verifier cannot evaluate object {} at {}: {}", i, x["x"], e))?;
                let (p, v) = (fint::<F>(x["p"].as_i64().unwrap()), fint::<F>(x["v"].as_i64().unwrap()));
                if got == p {
                    rep.stat("verifier_points");
                } else if got == v {
                    rep.known("extension-of-product", format!("object {} of {}", i, case["steps"]));
                } else {
                    return Err(format!("branch {} object {}: verifier's value at {} is neither the prover's {} nor {}", b, i, x["x"], x["p"], x["v"]));
                }
            }
            rep.stat("verifier_objects");
        }
    }
    Ok(())
}

/// are copies of the verifier's tracker independent of the original?
fn verifier_copy<P: PolynomialCommitmentScheme<E>>(prm: &Params<P>, rep: &mut Report) {
    let r = guard(|| {
        let vt: VT<P> = VerifierTrackerRef::new_from_pcs_params(prm.vp.clone());
        let a = vt.track_virtual_comm(Box::new(|_| Ok(F::from(7u64))));
        let copy = vt.deep_copy();
        let b = copy.track_virtual_comm(Box::new(|_| Ok(F::from(8u64))));
        let c = vt.track_virtual_comm(Box::new(|_| Ok(F::from(9u64))));
        let av = a.eval_virtual_comm(&[]).ok() == Some(F::from(7u64));
        av && b.eval_virtual_comm(&[]).ok() == Some(F::from(8u64)) && c.eval_virtual_comm(&[]).ok() == Some(F::from(9u64))
    });
    rep.stat("verifier_copy_probe");
    if r != Ok(true) {
        rep.known("verifier-copy-shares-state", format!("{:?}", r));
    }
}

pub fn run(cases: &[Value], seed: u64, kzg: bool) -> Report {
    let _ = seed;
    let mut rep = Report::default();
    let mock = Params::<MockPCS> { pp: (), vp: () };
    let kz: Option<Params<MultilinearKzgPCS<E>>> = if kzg { Some(kzg_params(13)) } else { None };
    if option("--only").as_deref() != Some("verifier") {
        verifier_copy(&mock, &mut rep);
    }
    for (k, case) in cases.iter().enumerate() {
        rep.case();
        if k % (cases.len() / 3 + 1) == 0 {
            rep.sample(json!({"steps": case["steps"]}));
        }
        let r = match &kz {
            Some(p) => run_case(p, case, &mut rep),
            None => run_case(&mock, case, &mut rep),
        };
        if let Err(e) = r {
            if e.contains("case error") {
                panic!("{}", e);
            }
            rep.violate(case, e);
        }
    }
    rep
}
