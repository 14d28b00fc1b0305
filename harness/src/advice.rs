//! `conform advice`: run the advice helpers on the specification's inputs and record what they return.
use crate::iops::*;
use crate::mock::MockPCS;
use crate::util::*;
use ark_ff::Field;
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use serde_json::{json, Value};
use std::collections::HashMap;
use zk_sql::tracker::prelude::*;
use zk_sql::zksql_poly_iop::verif_hooks::*;

type P = MockPCS;

/// integers of the specification and the field elements that stand for them, in the same order
struct Code {
    to: HashMap<i64, F>,
    from: HashMap<F, i64>,
}
impl Code {
    fn new(e: i64) -> Self {
        let s = if e == 0 { F::from(1u64) } else { F::from(2u64).pow([200u64]) };
        let to: HashMap<i64, F> = (-64..128).map(|v| (v, fint::<F>(v) * s)).collect();
        let from = to.iter().map(|(k, v)| (*v, *k)).collect();
        Code { to, from }
    }
    fn enc(&self, v: &Value) -> Vec<F> {
        ints(v).iter().map(|x| self.to[x]).collect()
    }
    fn dec(&self, v: &[F]) -> Vec<i64> {
        v.iter().map(|x| *self.from.get(x).unwrap_or(&999_983)).collect()
    }
}
/// small numbers: selectors and multiplicities
fn num(v: &[F]) -> Vec<i64> {
    v.iter().map(|x| (0..1000).find(|k| fint::<F>(*k) == *x).unwrap_or(-7)).collect()
}

struct Rec<'a> {
    case: &'a Value,
    out: Vec<Value>,
}
impl<'a> Rec<'a> {
    fn put(&mut self, what: &str, a: Value, b: Value, out: Value) {
        let mut r = json!({"what": what, "a": a, "b": b, "out": out});
        for k in ["ai", "bi"] {
            if !self.case[k].is_null() {
                r[k] = self.case[k].clone();
            }
        }
        self.out.push(r);
    }
}

fn bags(case: &Value, c: &Code, rec: &mut Rec) -> Result<(), String> {
    let prm = Params::<P> { pp: (), vp: () };
    let mut pt: PT<P> = ProverTrackerRef::new_from_pcs_params(prm.pp);
    let mut load = |x: &Value| -> Result<(Bag<E, P>, DenseMultilinearExtension<F>, DenseMultilinearExtension<F>), String> {
        let (v, s) = (mle(&c.enc(&x["v"])), mle(&fvec(&x["s"])));
        let b = Bag::new(guard_res(|| pt.track_and_commit_poly(v.clone()))?, guard_res(|| pt.track_and_commit_poly(s.clone()))?);
        Ok((b, v, s))
    };
    let (a, av, asl) = load(&case["a"])?;
    let (b, bv, bs) = load(&case["b"])?;
    let (ja, jb) = (case["a"].clone(), case["b"].clone());
    let bag = |x: &Bag<E, P>| json!({"k": "bag", "v": c.dec(&x.poly.evaluations()), "s": num(&x.selector.evaluations())});
    let map = |m: HashMap<F, u64>| json!({"m": m.iter().map(|(k, n)| json!([c.dec(&[*k])[0], n])).collect::<Vec<_>>()});

    rec.put("count_bag", ja.clone(), jb.clone(), map(guard(|| bag_multiplicity_count(&a))?));
    rec.put("count_mle", ja.clone(), jb.clone(), map(guard(|| mle_multiplicity_count::<E>(&av, &asl))?));
    rec.put("count_vec", ja.clone(), jb.clone(), map(guard(|| vec_multiplicity_count::<E>(&av.evaluations, &asl.evaluations))?));

    let (l, ma, mb, r) = guard_res(|| bag_lmr_split(&mut pt, &a, &b)).map_err(|e| format!("bag_lmr_split: {}", e))?;
    rec.put("split", ja.clone(), jb.clone(), json!({"l": bag(&l), "ma": bag(&ma), "mb": bag(&mb), "r": bag(&r)}));
    let set = |x: &Value| {
        let (v, s) = (ints(&x["v"]), ints(&x["s"]));
        let mut q: Vec<i64> = v.iter().zip(&s).filter(|(_, s)| **s != 0).map(|(v, _)| *v).collect();
        let n = q.len();
        q.sort();
        q.dedup();
        q.len() == n
    };
    if set(&ja) && set(&jb) {
        let (l, m, r) = guard_res(|| set_lmr_split(&mut pt, &a, &b)).map_err(|e| format!("set_lmr_split: {}", e))?;
        rec.put("split_set", ja.clone(), jb.clone(), json!({"l": bag(&l), "m": bag(&m), "r": bag(&r)}));
    }
    let m = guard(|| calc_bag_inclusion_advice_from_bag(&a, &b)).map_err(|e| format!("calc_bag_inclusion_advice_from_bag: {}", e))?;
    rec.put("inclusion", ja.clone(), jb.clone(), json!({"m": num(&m.to_evaluations())}));
    let m = guard(|| calc_bag_inclusion_advice_from_mle::<E>(&av, &asl, &bv, &bs)).map_err(|e| format!("calc_bag_inclusion_advice_from_mle: {}", e))?;
    rec.put("inclusion_mle", ja.clone(), jb.clone(), json!({"m": num(&m.to_evaluations())}));
    let mb_ = |v: &DenseMultilinearExtension<F>, s: &DenseMultilinearExtension<F>| json!({"k": "bag", "v": c.dec(&v.evaluations), "s": num(&s.evaluations)});
    let (v, s, ma, mb) = guard_res(|| calc_bag_disjoint_advice(&a, &b)).map_err(|e| format!("calc_bag_disjoint_advice: {}", e))?;
    rec.put("disjoint", ja.clone(), jb.clone(), json!({"c": mb_(&v, &s), "ma": num(&ma.evaluations), "mb": num(&mb.evaluations)}));
    let (v, s, m) = guard_res(|| calc_bag_supp_advice(&a)).map_err(|e| format!("calc_bag_supp_advice: {}", e))?;
    rec.put("supp", ja.clone(), jb.clone(), json!({"c": mb_(&v, &s), "m": num(&m.evaluations)}));
    let (l, r) = guard(|| calc_join_reduction_lr_sel_advice::<E>(&av, &asl, &bv, &bs)).map_err(|e| format!("calc_join_reduction_lr_sel_advice: {}", e))?;
    rec.put("markers", ja, jb, json!({"l": num(&l.evaluations), "r": num(&r.evaluations)}));
    Ok(())
}

fn tabs(case: &Value, c: &Code, rec: &mut Rec) -> Result<(), String> {
    let mut pt: PT<P> = ProverTrackerRef::new_from_pcs_params(());
    let mut load = |x: &Value| -> Result<Table<E, P>, String> {
        let mut cols = vec![];
        for v in arr(&x["c"]) {
            cols.push(guard_res(|| pt.track_and_commit_poly(mle(&c.enc(&v))))?);
        }
        Ok(Table::new(cols, guard_res(|| pt.track_and_commit_poly(mle(&fvec(&x["s"]))))?))
    };
    let ta = load(&case["a"])?;
    let tb = load(&case["b"])?;
    let (ai, bi) = (case["ai"].as_u64().unwrap() as usize - 1, case["bi"].as_u64().unwrap() as usize - 1);
    let (ja, jb) = (case["a"].clone(), case["b"].clone());
    match guard_res(|| calc_final_join_one_to_many_index_transform(&ta, &tb, ai, bi)) {
        Ok(ix) => {
            rec.put("rows", ja.clone(), jb.clone(), json!({"ok": true, "ix": ix}));
            let mut cols = vec![];
            for p in &ta.col_vals {
                let m = guard_res(|| calc_index_transformed_bag(&ix, p, &tb.selector)).map_err(|e| format!("calc_index_transformed_bag: {}", e))?;
                cols.push(c.dec(&m.evaluations));
            }
            rec.put("joined", ja, jb, json!({"cols": cols}));
            rec.out.last_mut().unwrap()["ix"] = json!(ix);
        }
        Err(e) if e.starts_with("panic") => return Err(format!("calc_final_join_one_to_many_index_transform: {}", e)),
        Err(_) => rec.put("rows", ja, jb, json!({"ok": false})),
    }
    Ok(())
}

pub fn run(cases: &[Value], _seed: u64, _kzg: bool) -> Report {
    let mut rep = Report::default();
    for (n, case) in cases.iter().enumerate() {
        rep.case();
        if n % (cases.len() / 2 + 1) == 0 {
            rep.sample(case.clone());
        }
        let c = Code::new(case["e"].as_i64().unwrap_or(0));
        let mut rec = Rec { case, out: vec![] };
        let k = case["k"].as_str().unwrap();
        rep.stat(k);
        let r = if k == "bags" { bags(case, &c, &mut rec) } else { tabs(case, &c, &mut rec) };
        for o in rec.out {
            rep.stat(o["what"].as_str().unwrap());
            rep.records.push(json!({"rec": o, "case": case}));
        }
        if let Err(e) = r {
            rep.violate(case, e);
        }
    }
    rep
}
