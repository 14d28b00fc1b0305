//! `conform transcript`: challenges must correspond one to one to the histories the specification
//! gives them, over every transcript of the run at once (so every pair of histories is compared).
use crate::iops::*;
use crate::kzg::{kzg_params, Kzg};
use crate::mock::MockPCS;
use crate::sumcheck::{build, lift, uz};
use crate::util::*;
use ark_ff::Field;
use ark_poly::DenseMultilinearExtension;
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;
use zk_sql::subroutines::poly_iop::structs::IOPProof;
use zk_sql::subroutines::poly_iop::sum_check::SumCheck;
use zk_sql::subroutines::poly_iop::zero_check::ZeroCheck;
use zk_sql::subroutines::poly_iop::PolyIOP;
use zk_sql::subroutines::verif_hooks::{batch_proof_parts, round_evaluations, round_message};
use zk_sql::subroutines::{MultilinearKzgPCS, PolynomialCommitmentScheme};
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hooks::*;
use zk_sql::transcript::IOPTranscript;

/// histories and challenges, one to one
#[derive(Default)]
pub struct Table {
    by_key: HashMap<String, F>,
    by_val: HashMap<F, String>,
}
impl Table {
    pub fn check(&mut self, key: String, val: F) -> Result<(), String> {
        match self.by_key.get(&key) {
            Some(v) if *v != val => return Err(format!("the same history gives two different challenges: {}", cut(&key))),
            Some(_) => return Ok(()),
            None => {}
        }
        if let Some(k) = self.by_val.get(&val) {
            return Err(format!("two histories give the same challenge: {} and {}", cut(k), cut(&key)));
        }
        self.by_val.insert(val, key.clone());
        self.by_key.insert(key, val);
        Ok(())
    }
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}
fn lab(s: &str) -> &'static [u8] {
    match s {
        "a" => b"a",
        "b" => b"b",
        "ab" => b"ab",
        // long labels that differ in the last byte only
        "A1" => b"a label of more than sixty-four bytes, so that it does not fit into one block of a hash 1",
        "A2" => b"a label of more than sixty-four bytes, so that it does not fit into one block of a hash 2",
        _ => b"",
    }
}

/// x = (length, 1st / middle / last place / past three quarters, _)
fn spot<T: Clone>(x: &[i64], zero: T, v: T) -> Vec<T> {
    let n = x[0] as usize;
    let mut q = vec![zero; n];
    q[[0, n / 2, n - 1, n / 4 * 3][x[1] as usize - 1]] = v;
    q
}
fn raw(run: &Value, tab: &mut Table) -> Result<(), String> {
    let new = || IOPTranscript::<F>::new(b"raw");
    let (mut t, mut f) = (new(), new());
    let mut out: Vec<Option<F>> = vec![];
    for o in arr(&run["ops"]) {
        let l = lab(o["l"].as_str().unwrap());
        let x = ints(&o["c"]["x"]);
        let fe = |v: i64| -> F { fint(v) };
        let r: Result<(), String> = match o["o"].as_str().unwrap() {
            "msg" => guard_res(|| t.append_message(l, &x.iter().map(|b| *b as u8).collect::<Vec<u8>>())),
            "fe" => guard_res(|| t.append_field_element(l, &fe(x[0]))),
            "enc" => guard_res(|| t.append_message(l, &zk_sql::to_bytes!(&fe(x[0])).unwrap())),
            "ser" => guard_res(|| t.append_serializable_element(l, &fe(x[0]))),
            "vec" => guard_res(|| t.append_serializable_element(l, &x.iter().map(|v| fe(*v)).collect::<Vec<F>>())),
            "long" => guard_res(|| t.append_message(l, &spot(&x, 0u8, x[2] as u8))),
            "big" => guard_res(|| t.append_field_element(l, &(fe(2).pow([x[0] as u64]) * fe(x[1])))),
            "col" => guard_res(|| t.append_serializable_element(l, &spot(&x, fe(0), fe(x[2])))),
            "chal" => {
                out.push(guard(|| t.get_and_append_challenge(l).ok())?);
                Ok(())
            }
            "chals" => {
                match guard(|| t.get_and_append_challenge_vectors(l, x[0] as usize))? {
                    Ok(v) => {
                        if v.len() != x[0] as usize {
                            return Err(format!("{} challenges asked for, {} given", x[0], v.len()));
                        }
                        out.extend(v.into_iter().map(Some))
                    }
                    Err(_) => out.push(None),
                }
                Ok(())
            }
            "fork" => {
                f = t.clone();
                Ok(())
            }
            "swap" => {
                std::mem::swap(&mut t, &mut f);
                Ok(())
            }
            k => panic!("case error: op {}", k),
        };
        r?;
    }
    compare(run, &out, tab, "")
}

fn compare(run: &Value, out: &[Option<F>], tab: &mut Table, who: &str) -> Result<(), String> {
    let want = arr(&run["out"]);
    if want.len() != out.len() {
        return Err(format!("{}{} challenges drawn, {} specified", who, out.len(), want.len()));
    }
    for (w, g) in want.iter().zip(out) {
        let w = w.as_str().unwrap();
        match g {
            None if w == "<<>>" => {}
            None => return Err(format!("{}a challenge is refused although something was absorbed: {}", who, cut(w))),
            Some(_) if w == "<<>>" => return Err(format!("{}a challenge is drawn from an empty transcript", who)),
            Some(v) => tab.check(w.to_string(), *v).map_err(|e| format!("{}{}", who, e))?,
        }
    }
    Ok(())
}

/// the same on the trackers: commitments and messages count, everything else is silent
fn tracker<P: PolynomialCommitmentScheme<E>>(prm: &Params<P>, run: &Value, tab: &mut Table) -> Result<(), String> {
    let ops = arr(&run["ops"]);
    let mut pt: PT<P> = ProverTrackerRef::new_from_pcs_params(prm.pp.clone());
    let mut out = vec![];
    let mut last: Option<TrackedPoly<E, P>> = None;
    for o in &ops {
        let x = &o["c"]["x"];
        match o["o"].as_str().unwrap() {
            "commit" => last = Some(guard_res(|| pt.track_and_commit_poly(mle(&fvec(x))))?),
            "absorb" => guard_res(|| pt.append_serializable_element(b"m", &fint::<F>(ints(x)[0])))?,
            "chal" => out.push(guard(|| pt.get_and_append_challenge(b"a").ok())?),
            "pub" => last = Some(guard(|| pt.track_mat_poly(mle(&[F::from(3u64), F::from(4u64)])))?),
            "mul" => {
                if let Some(l) = &last {
                    last = Some(guard(|| l.mul_poly(l))?);
                }
            }
            "zero" => {
                if let Some(l) = &last {
                    guard(|| pt.add_zerocheck_claim(l.id))?;
                }
            }
            _ => {
                if let Some(l) = &last {
                    guard(|| pt.add_sumcheck_claim(l.id, F::from(9u64)))?;
                }
            }
        }
    }
    compare(run, &out, tab, "prover: ")?;
    let mut proof = CompiledZKSQLProof::<E, P>::default();
    proof.comms = pt.clone_underlying_tracker().materialized_comms.clone();
    let mut vt: VT<P> = VerifierTrackerRef::new_from_pcs_params(prm.vp.clone());
    vt.set_compiled_proof(proof);
    let mut out = vec![];
    let mut last: Option<TrackedComm<E, P>> = None;
    for o in &ops {
        let x = &o["c"]["x"];
        match o["o"].as_str().unwrap() {
            "commit" => {
                let id = vt.get_next_id();
                last = Some(guard(|| vt.transfer_prover_comm(id))?)
            }
            "absorb" => guard_res(|| vt.append_serializable_element(b"m", &fint::<F>(ints(x)[0])))?,
            "chal" => out.push(guard(|| vt.get_and_append_challenge(b"a").ok())?),
            "pub" => last = Some(guard(|| vt.track_virtual_comm(Box::new(|_| Ok(F::from(3u64)))))?),
            "mul" => {
                if let Some(l) = &last {
                    last = Some(guard(|| l.mul_comms(l))?);
                }
            }
            "zero" => {
                if let Some(l) = &last {
                    guard(|| vt.add_zerocheck_claim(l.id))?;
                }
            }
            _ => {
                if let Some(l) = &last {
                    guard(|| vt.add_sumcheck_claim(l.id, F::from(9u64)))?;
                }
            }
        }
    }
    compare(run, &out, tab, "verifier: ")
}

fn tr(salt: u64) -> IOPTranscript<F> {
    let mut t = IOPTranscript::<F>::new(b"pairs");
    t.append_message(b"salt", &salt.to_le_bytes()).unwrap();
    t
}
fn to_f(v: &Value) -> Vec<F> {
    ints(v).iter().map(|x| lift(*x)).collect()
}

/// two sumchecks (or zerochecks) whose messages part ways in round j: so do their challenges, from there on;
/// then the verifier on messages altered so that they would pass if their challenge did not change
fn pair(case: &Value, salt: u64, tab: &mut Table) -> Result<(), String> {
    let nv = uz(&case["nv"]);
    let zc = case["zc"].as_bool().unwrap();
    let j = uz(&case["j"]);
    let cols: Vec<Vec<F>> = arr(&case["cols"]).iter().map(to_f).collect();
    let vp = build(nv, &cols, &case["prods"])?;
    // + g (2 x_j - 1): nothing changes before round j
    let g = Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, to_f(&case["g"])));
    let sg = Arc::new(DenseMultilinearExtension::from_evaluations_vec(
        nv,
        (0..1usize << nv).map(|k| if (k >> (j - 1)) & 1 == 1 { F::from(1u64) } else { -F::from(1u64) }).collect(),
    ));
    let mut vp2 = vp.clone();
    vp2.add_mle_list(vec![g, sg], F::from(1u64)).map_err(|e| format!("add_mle_list: {}", e))?;
    let mut vp1 = vp;
    vp1.aux_info = vp2.aux_info.clone();
    let deg = vp1.aux_info.max_degree;
    let prove = |p| {
        let mut t = tr(salt);
        guard_res(|| if zc { <PolyIOP<F> as ZeroCheck<F>>::prove(p, &mut t) } else { <PolyIOP<F> as SumCheck<F>>::prove(p, &mut t) })
    };
    let mut record = |pr: &IOPProof<F>| -> Result<Vec<Vec<F>>, String> {
        let m: Vec<Vec<F>> = pr.proofs.iter().map(round_evaluations).collect();
        for k in 0..nv {
            tab.check(format!("{} {} {} {} {:?}", salt, zc, nv, deg, m[..k + 1].iter().map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>()), pr.point[k])?;
        }
        Ok(m)
    };
    let p1 = prove(&vp1)?;
    let m1 = record(&p1)?;
    let p2 = prove(&vp2)?;
    let m2 = record(&p2)?;
    if !zc && m1[..j - 1] != m2[..j - 1] {
        return Err(format!("messages differ before round {} although the partial sums do not", j));
    }
    // the verifier
    let sum: F = m1[0][0] + m1[0][1];
    let verify = |m: &[Vec<F>]| {
        let pr = IOPProof { point: p1.point.clone(), proofs: m.iter().cloned().map(round_message).collect() };
        let mut t = tr(salt);
        if zc {
            guard(|| <PolyIOP<F> as ZeroCheck<F>>::verify(&pr, &aux(&vp1, deg), &mut t).map(|s| s.point))
        } else {
            guard(|| <PolyIOP<F> as SumCheck<F>>::verify(sum, &pr, &vp1.aux_info, &mut t).map(|s| s.point))
        }
    };
    let honest = if zc { sum == F::from(0u64) } else { true };
    if honest {
        match verify(&m1)? {
            Ok(p) if p == p1.point => {}
            Ok(_) => return Err("prover and verifier derive different points".into()),
            Err(e) => return Err(format!("honest messages are rejected: {}", e)),
        }
    }
    // q(0) + q(1) = 0 and q(r_j) = 0
    let r = p1.point[j - 1];
    let one = F::from(1u64);
    let s = (r - one) / (r + r - one);
    let a = F::from(1 + salt % 5);
    let mut m = m1.clone();
    for (x, e) in m[j - 1].iter_mut().enumerate() {
        let x = F::from(x as u64);
        *e += a * (x - r) * (x - s);
    }
    if m[j - 1].len() >= 3 {
        match verify(&m)? {
            Err(_) => {}
            Ok(p) => {
                if p[..j - 1] != p1.point[..j - 1] {
                    return Err(format!("changing message {} changes an earlier challenge", j));
                }
                for k in j - 1..nv {
                    if p[k] == p1.point[k] {
                        return Err(format!("verifier: changing message {} leaves challenge {} as it was", j, k + 1));
                    }
                }
            }
        }
    }
    Ok(())
}
fn aux(vp: &zk_sql::arithmetic::VirtualPolynomial<F>, deg: usize) -> zk_sql::arithmetic::VPAuxInfo<F> {
    let mut a = vp.aux_info.clone();
    a.max_degree = deg;
    a
}

/// batch openings: the inner sumcheck's challenges depend on every claimed evaluation
fn batch(case: &Value, salt: u64, prm: &Params<Kzg>, tab: &mut Table) -> Result<(), String> {
    let n = uz(&case["nv"]);
    let cols: Vec<Vec<F>> = arr(&case["cols"]).iter().map(to_f).collect();
    let mut rng = Rng64::new(salt, 3);
    let polys: Vec<Arc<DenseMultilinearExtension<F>>> = cols.iter().map(|c| Arc::new(mle(c))).collect();
    let z: Vec<F> = rng.fields(n);
    let points = vec![z.clone(); polys.len()];
    let evals: Vec<F> = cols.iter().map(|c| mle_eval(c, &z)).collect();
    let i = uz(&case["j"]) % polys.len();
    for d in [0u64, 1, 2] {
        let mut ev = evals.clone();
        ev[i] += F::from(d);
        let mut t = tr(salt);
        let p = match guard(|| MultilinearKzgPCS::<E>::multi_open(&prm.pp, &polys, &points, &ev, &mut t))? {
            Ok(p) => p,
            Err(_) if d > 0 => continue,
            Err(e) => return Err(format!("multi_open: {}", e)),
        };
        let (sc, ev2, _) = batch_proof_parts::<E, Kzg>(&p);
        let m: Vec<Vec<String>> = sc.proofs.iter().map(|x| round_evaluations(x).iter().map(|v| v.to_string()).collect()).collect();
        let es: Vec<String> = ev2.iter().map(|v| v.to_string()).collect();
        for k in 0..sc.point.len() {
            tab.check(format!("{} batch {:?} {:?}", salt, es, &m[..k + 1]), sc.point[k])?;
        }
    }
    Ok(())
}

pub fn run(cases: &[Value], seed: u64, kzg: bool) -> Report {
    let mut rep = Report::default();
    let mut tabs: HashMap<String, Table> = HashMap::new();
    let mock = Params::<MockPCS> { pp: (), vp: () };
    let kz: Params<Kzg> = kzg_params(13);
    for (n, case) in cases.iter().enumerate() {
        rep.case();
        let k = case["k"].as_str().unwrap();
        rep.stat(k);
        if n % (cases.len() / 2 + 1) == 0 {
            rep.sample(case.clone());
        }
        let tab = tabs.entry(k.to_string()).or_default();
        let salt = seed.wrapping_mul(31) + n as u64;
        let r = match k {
            "raw" | "long" => arr(&case["runs"]).iter().try_for_each(|r| raw(r, tab)),
            "tracker" => arr(&case["runs"]).iter().try_for_each(|r| if kzg { tracker(&kz, r, tab) } else { tracker(&mock, r, tab) }),
            "pair" => pair(case, salt, tab).and_then(|_| if n % 4 == 0 { batch(case, salt, &kz, tab) } else { Ok(()) }),
            o => panic!("case error: kind {}", o),
        };
        if let Err(e) = r {
            if e.contains("case error") {
                panic!("{}", e);
            }
            rep.violate(case, e);
        }
    }
    let n: usize = tabs.values().map(|t| t.by_key.len()).sum();
    rep.statn("histories", n as u64);
    rep
}
