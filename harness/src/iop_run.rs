//! `conform iop`: replay a file of specification cases.
use crate::iops::*;
use crate::kzg::kzg_params;
use crate::mock::MockPCS;
use crate::util::*;
use serde_json::{json, Value};
use zk_sql::subroutines::{MultilinearKzgPCS, PolynomialCommitmentScheme};

pub fn dress_of(case: &Value, seed: u64, k: u64) -> Dress {
    let mut d = Dress { seed: seed ^ (k << 20), ..Default::default() };
    if let Some(x) = case.get("dress") {
        d.pre = ints(&x["pre"]).iter().map(|n| *n as usize).collect();
        d.shares = x["shares"].as_bool().unwrap_or(false);
        d.prods = x["prods"].as_bool().unwrap_or(false);
        d.same = x["same"].as_bool().unwrap_or(false);
    }
    d
}

/// every case is replayed plainly; a rotating share of them also in other "dresses"
pub fn dresses(case: &Value, seed: u64, k: u64, emb: &Emb) -> Vec<Dress> {
    let plain = dress_of(case, seed, k);
    let mut v = vec![plain.clone()];
    if case.get("dress").is_some() || case["plain"].as_bool().unwrap_or(false) {
        return v;
    }
    let maxnv = arr(&case["in"])
        .iter()
        .map(|i| log2(if i["k"] == "tab" { ints(&i["s"]).len() } else { ints(&i["v"]).len() }))
        .max()
        .unwrap_or(1);
    match k % 5 {
        1 => v.push(Dress { pre: vec![maxnv + 1], ..plain.clone() }),
        2 => v.push(Dress { shares: true, ..plain.clone() }),
        3 => v.push(Dress { pre: vec![1, maxnv + 2], shares: true, ..plain.clone() }),
        4 => v.push(Dress { prods: true, ..plain.clone() }),
        _ => {}
    }
    if has_twins(&layout(case, emb).0) {
        v.push(Dress { same: true, ..plain });
    }
    v
}

/// false: there is nothing more to try for this case
fn cheat_once<P: PolynomialCommitmentScheme<E>>(prm: &Params<P>, case: &Value, skip: usize, emb: &Emb, d: &Dress, rep: &mut Report) -> bool {
    let lookups = arr(&case["cheat"]).iter().any(|l| l["op"] == "MT");
    if skip > 0 && !lookups {
        return false;
    }
    let out = play(prm, case, emb, d, &|t, e, s| {
        crate::cheats::load(case, skip);
        let r = prove_step(t, e, s);
        let (n, all) = crate::cheats::told();
        TOLD.with(|x| x.set((n, all)));
        crate::cheats::clear();
        r
    });
    crate::cheats::clear();
    let (n, all) = TOLD.with(|x| x.replace((0, 0)));
    if n < all {
        rep.stat(if skip == 0 { "lies_not_all_told" } else { "lies_not_told_again" });
        if skip > 0 {
            return false;
        }
    } else {
        rep.stat("lies_told");
        if out.stage == "done" {
            rep.stat("lies_reached_verifier");
        }
    }
    rep.stat("replays");
    rep.stat("expect_never");
    if out.real.is_ok() {
        rep.violate(case, format!("a lying prover convinced the verifier of a false statement (claims as recorded: {:?})", out.ideal));
    }
    true
}
thread_local! {
    static TOLD: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}

pub fn run_one<P: PolynomialCommitmentScheme<E>>(
    prm: &Params<P>,
    case: &Value,
    seed: u64,
    k: u64,
    rep: &mut Report,
) {
    let emb = Emb::from_case(case, seed, k);
    let cheat = case.get("cheat").is_some();
    for d in dresses(case, seed, k, &emb) {
        if cheat {
            // lookups that look alike: lie about the first, the second, ...
            for skip in 0..3 {
                if !cheat_once(prm, case, skip, &emb, &d, rep) {
                    break;
                }
            }
            continue;
        }
        let out = play(prm, case, &emb, &d, &|t, e, s| prove_step(t, e, s));
        rep.stat("replays");
        if out.stage == "done" {
            rep.stat("reached_verifier");
        }
        rep.statn("verifier_claims_evaluated", out.claims as u64);
        let exp = case["expect"].as_str().unwrap();
        rep.stat(&format!("expect_{}", exp));
        let say = |r: &Result<(), String>| match r {
            Ok(()) => "accept".to_string(),
            Err(e) => format!("reject ({})", e.chars().take(160).collect::<String>()),
        };
        let dn = format!("[pre={:?} shares={} prods={} same={}]", d.pre, d.shares, d.prods, d.same);
        match exp {
            "accept" => {
                if out.real.is_err() || out.ideal.is_err() {
                    rep.violate(case, format!("specification accepts; code: real={} ideal={} {}", say(&out.real), say(&out.ideal), dn));
                } else if !out.problems.is_empty() {
                    rep.violate(case, format!("accepted, but {} {}", out.problems.join("; "), dn));
                }
            }
            "reject" => {
                if out.real.is_ok() || out.ideal.is_ok() {
                    rep.violate(case, format!("specification rejects; code: real={} ideal={} {}", say(&out.real), say(&out.ideal), dn));
                }
            }
            "any" => {}
            o => panic!("case error: expect {}", o),
        }
    }
}

pub fn run(cases: &[Value], seed: u64, kzg: bool) -> Report {
    let mut rep = Report::default();
    let mock = Params::<MockPCS> { pp: (), vp: () };
    let kz: Option<Params<MultilinearKzgPCS<E>>> = if kzg { Some(kzg_params(13)) } else { None };
    for (k, case) in cases.iter().enumerate() {
        rep.case();
        if k % (cases.len() / 3 + 1) == 0 {
            rep.sample(json!({"case": case}));
        }
        match &kz {
            Some(p) => run_one(p, case, seed, k as u64, &mut rep),
            None => run_one(&mock, case, seed, k as u64, &mut rep),
        }
    }
    rep
}
