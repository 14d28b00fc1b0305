//! `conform arith`: programs of polynomial operations on the real arithmetic, over a small prime field.
use crate::sumcheck::{to_i, uz, F15};
use crate::util::*;
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use serde_json::{json, Value};
use std::sync::Arc;
use zk_sql::arithmetic::*;
use zk_sql::tracker::prelude as tp;

type Mle = DenseMultilinearExtension<F15>;

fn fs(v: &Value) -> Vec<F15> {
    fvec(v)
}
fn f1(v: &Value) -> F15 {
    fint(v.as_i64().expect("case error: field element"))
}
fn is_(v: &[F15]) -> Vec<i64> {
    v.iter().map(to_i).collect()
}
fn mle(v: Vec<F15>) -> Arc<Mle> {
    Arc::new(Mle::from_evaluations_vec(log2(v.len()), v))
}
fn refused<T>(r: Result<Result<T, ArithErrors>, String>) -> Result<(), String> {
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err("is not refused".into()),
        Err(p) => Err(format!("panics instead of reporting an error: {}", p)),
    }
}
fn same(what: &str, got: &[F15], want: &[F15]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    Err(format!("{}: {:?}, specified {:?}", what, is_(got), is_(want)))
}
fn no<T>(r: Result<T, String>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{}: {}", what, e))
}

struct St {
    cols: Vec<Arc<Mle>>,
    vps: Vec<VirtualPolynomial<F15>>,
    /// calls that failed half-way may have raised the degree bound
    recs: Vec<Value>,
}

impl St {
    fn col(&self, v: &Value) -> Arc<Mle> {
        self.cols[uz(v) - 1].clone()
    }
    fn list(&self, v: &Value) -> Vec<Arc<Mle>> {
        ints(v).iter().map(|i| self.cols[*i as usize - 1].clone()).collect()
    }
    fn put(&mut self, what: &str, m: &Mle, want: &Value) -> Result<(), String> {
        let w = fs(want);
        same(what, &m.evaluations, &w)?;
        if m.num_vars != log2(w.len()) {
            return Err(format!("{}: reports {} variables", what, m.num_vars));
        }
        self.cols.push(Arc::new(m.clone()));
        Ok(())
    }

    fn step(&mut self, o: &Value, salt: u64) -> Result<(), String> {
        let ok = o["ok"].as_bool().unwrap();
        let op = o["op"].as_str().unwrap();
        match op {
            "skip" => {}
            "col" => self.cols.push(mle(fs(&o["c"]))),
            "dup" => {
                let c = self.col(&o["i"]);
                self.cols.push(Arc::new(c.as_ref().clone()));
            }
            "new" => self.vps.push(guard(|| VirtualPolynomial::new(uz(&o["nv"])))?),
            "from" => {
                let c = self.col(&o["i"]);
                self.vps.push(guard(|| VirtualPolynomial::new_from_mle(&c, f1(&o["k"])))?);
            }
            "list" => {
                let q = self.list(&o["q"]);
                let v = &mut self.vps[uz(&o["v"]) - 1];
                let r = guard(|| v.add_mle_list(q, f1(&o["k"])));
                if ok {
                    r?.map_err(|e| e.to_string())?;
                } else {
                    refused(r)?;
                }
            }
            "mul" => {
                let c = self.col(&o["i"]);
                let v = &mut self.vps[uz(&o["v"]) - 1];
                let r = guard(|| v.mul_by_mle(c, f1(&o["k"])));
                if ok {
                    r?.map_err(|e| e.to_string())?;
                } else {
                    refused(r)?;
                }
            }
            "add" => {
                let r = guard(|| &self.vps[uz(&o["v"]) - 1] + &self.vps[uz(&o["w"]) - 1])?;
                self.vps.push(r);
            }
            "hat" => {
                let r = fs(&o["r"]);
                let v = &self.vps[uz(&o["v"]) - 1];
                let x = guard(|| v.build_f_hat(&r));
                if !ok {
                    return refused(x);
                }
                let h = x?.map_err(|e| e.to_string())?;
                self.vps.push(h);
                // the specification numbers the eq column too
                let e = guard_res(|| build_eq_x_r(&r))?;
                self.cols.push(e);
            }
            "mat" => {
                let m = guard(|| self.vps[uz(&o["v"]) - 1].materialize())?;
                self.put("materialized", &m, &o["c"])?;
            }
            "eval" => {
                let v = &self.vps[uz(&o["v"]) - 1];
                let z = fs(&o["z"]);
                let r = guard(|| v.evaluate(&z));
                if !ok {
                    return refused(r);
                }
                same("value", &[r?.map_err(|e| e.to_string())?], &[f1(&o["x"])])?;
                if v.aux_info.num_variables != uz(&o["nv"]) || v.aux_info.max_degree < uz(&o["deg"]) {
                    return Err(format!("reports {} variables and degree {}", v.aux_info.num_variables, v.aux_info.max_degree));
                }
            }
            "evalc" => {
                let c = self.col(&o["i"]);
                let z = fs(&o["z"]);
                let x = f1(&o["x"]);
                same("evaluate_opt", &[guard(|| evaluate_opt(&c, &z))?], &[x])?;
                same("evaluate_no_par", &[guard(|| evaluate_no_par(&c, &z))?], &[x])?;
                same("evaluate", &[guard(|| c.evaluate(&z).expect("value"))?], &[x])?;
            }
            "fix" => {
                let c = self.col(&o["i"]);
                let m = guard(|| fix_variables(&c, &fs(&o["z"])))?;
                self.put("fix_variables", &m, &o["c"])?;
            }
            "fixlast" => {
                let c = self.col(&o["i"]);
                let z = fs(&o["z"]);
                if !z.is_empty() {
                    let m = no(guard(|| fix_last_variables_no_par(&c, &z)), "fix_last_variables_no_par")?;
                    same("fix_last_variables_no_par", &m.evaluations, &fs(&o["c"]))?;
                }
                let m = guard(|| fix_last_variables(&c, &z))?;
                self.put("fix_last_variables", &m, &o["c"])?;
            }
            "ext" => {
                let (m, n) = (self.col(&o["i"]), uz(&o["n"]));
                let front = o["w"] == "front";
                let r = guard(|| if front { tp::dmle_increase_nv_front(&m, n) } else { tp::dmle_increase_nv_back(&m, n) })?;
                self.put(if front { "extended in front" } else { "extended at the back" }, &r, &o["c"])?;
            }
            "merge" => {
                let q = self.list(&o["q"]);
                let r = guard(|| merge_polynomials(&q));
                if !ok {
                    return refused(r);
                }
                let m = r?.map_err(|e| e.to_string())?;
                self.put("merged", &m, &o["c"])?;
            }
            "eq" => {
                let r = fs(&o["r"]);
                if !ok {
                    refused(guard(|| build_eq_x_r_vec(&r)))?;
                    refused(guard(|| tp::build_eq_x_r(&r)))?;
                    return refused(guard(|| build_eq_x_r(&r)));
                }
                let v = guard_res(|| build_eq_x_r_vec(&r))?;
                let m = guard_res(|| build_eq_x_r(&r))?;
                let t = guard_res(|| tp::build_eq_x_r(&r))?;
                same("tracker build_eq_x_r", &t.evaluations, &fs(&o["c"]))?;
                if t.num_vars != r.len() {
                    return Err("tracker build_eq_x_r: number of variables".into());
                }
                same("build_eq_x_r_vec", &v, &fs(&o["c"]))?;
                self.put("build_eq_x_r", &m, &o["c"])?;
            }
            "eqe" => {
                let r = guard(|| eq_eval(&fs(&o["a"]), &fs(&o["b"])));
                let t = guard(|| tp::eq_eval(&fs(&o["a"]), &fs(&o["b"])));
                if !ok {
                    refused(t)?;
                    return refused(r);
                }
                same("tracker eq_eval", &[t?.map_err(|e| e.to_string())?], &[f1(&o["x"])])?;
                same("eq_eval", &[r?.map_err(|e| e.to_string())?], &[f1(&o["x"])])?;
            }
            "idx" => {
                let (i, nv) = (uz(&o["i"]), uz(&o["nv"]));
                let bits: Vec<bool> = ints(&o["bits"]).iter().map(|b| *b == 1).collect();
                if guard(|| bit_decompose(i as u64, nv))? != bits {
                    return Err("bit_decompose".into());
                }
                if guard(|| tp::bit_decompose(i as u64, nv))? != bits {
                    return Err("tracker bit_decompose".into());
                }
                let w: Vec<F15> = bits.iter().map(|b| fint(*b as i64)).collect();
                same("binary_decompose", &guard(|| tp::binary_decompose::<F15>(i as u64, nv))?, &w)?;
                let want = (uz(&o["x0"]), uz(&o["x1"]), uz(&o["top"]) == 1);
                let got = guard(|| get_index(i, nv))?;
                if got != want {
                    return Err(format!("get_index: {:?}, specified {:?}", got, want));
                }
                let (b, z) = (uz(&o["b"]), fs(&o["z"]));
                let mut w = z.clone();
                w.extend((0..b).map(|k| fint::<F15>(((i >> k) & 1) as i64)));
                same("gen_eval_point", &guard(|| gen_eval_point(i, b, &z))?, &w)?;
            }
            "bnv" => {
                let got = guard(|| get_batched_nv(uz(&o["nv"]), uz(&o["k"])))?;
                if got != uz(&o["x"]) {
                    return Err(format!("get_batched_nv: {}, specified {}", got, o["x"]));
                }
            }
            "idp" => {
                let (nv, k) = (uz(&o["nv"]), uz(&o["k"]));
                let want = fs(&o["c"]);
                same("identity_permutation", &guard(|| identity_permutation::<F15>(nv, k))?, &want)?;
                let ms = guard(|| identity_permutation_mles::<F15>(nv, k))?;
                let flat: Vec<F15> = ms.iter().flat_map(|m| m.evaluations.clone()).collect();
                same("identity_permutation_mles", &flat, &want)?;
                if ms.len() != k || ms.iter().any(|m| m.num_vars != nv) {
                    return Err("identity_permutation_mles: shape".into());
                }
            }
            "rand" => self.rand(o, salt)?,
            "big" => big(uz(&o["nv"]), uz(&o["cut"]), uz(&o["m"]), salt)?,
            x => panic!("case error: op {}", x),
        }
        Ok(())
    }

    /// random instances: recorded, and judged by TLC
    fn rand(&mut self, o: &Value, salt: u64) -> Result<(), String> {
        use ark_std::rand::SeedableRng;
        let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(salt);
        let (nv, lo, hi, k) = (uz(&o["nv"]), uz(&o["lo"]), uz(&o["hi"]), uz(&o["k"]));
        let what = o["what"].as_str().unwrap();
        let flat = |ms: &[Arc<Mle>]| -> Vec<Vec<i64>> { ms.iter().map(|m| is_(&m.evaluations)).collect() };
        let vp = |v: &VirtualPolynomial<F15>| -> Vec<Value> {
            v.products.iter().map(|(c, p)| json!({"c": to_i(c), "p": p.iter().map(|x| x + 1).collect::<Vec<_>>()})).collect()
        };
        let one = |m: usize| json!([{"c": 1, "p": (1..=m).collect::<Vec<_>>()}]);
        let (cols, prods, sum, deg): (Vec<Vec<i64>>, Value, i64, usize) = match what {
            "mles" => {
                let (ms, s) = guard(|| random_mle_list::<F15, _>(nv, hi, &mut rng))?;
                (flat(&ms), one(hi), to_i(&s), hi)
            }
            "zeros" => {
                let ms = guard(|| random_zero_mle_list::<F15, _>(nv, hi, &mut rng))?;
                (flat(&ms), one(hi), 0, hi)
            }
            "vp" => {
                let (v, s) = guard_res(|| VirtualPolynomial::<F15>::rand(nv, (lo, hi), k, &mut rng))?;
                (flat(&v.flattened_ml_extensions), json!(vp(&v)), to_i(&s), v.aux_info.max_degree)
            }
            "vpzero" => {
                let v = guard_res(|| VirtualPolynomial::<F15>::rand_zero(nv, (lo, hi), k, &mut rng))?;
                (flat(&v.flattened_ml_extensions), json!(vp(&v)), 0, v.aux_info.max_degree)
            }
            "perm" => (vec![is_(&guard(|| random_permutation::<F15, _>(nv, k, &mut rng))?)], json!([]), 0, 0),
            _ => {
                let ms = guard(|| random_permutation_mles::<F15, _>(nv, k, &mut rng))?;
                if ms.len() != k || ms.iter().any(|m| m.num_vars != nv) {
                    return Err("random_permutation_mles: shape".into());
                }
                (vec![ms.iter().flat_map(|m| is_(&m.evaluations)).collect()], json!([]), 0, 0)
            }
        };
        self.recs.push(json!({"what": what, "nv": nv, "lo": lo, "hi": hi, "k": k, "cols": cols, "prods": prods, "sum": sum, "deg": deg}));
        Ok(())
    }
}

/// the specification's laws at a random point of the production field, for columns too long to tabulate
fn big(nv: usize, cut: usize, m: usize, salt: u64) -> Result<(), String> {
    let mut r = Rng64::new(salt, 77);
    let cols: Vec<Arc<DenseMultilinearExtension<F>>> =
        (0..3).map(|_| Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, r.fields(1 << nv)))).collect();
    let z: Vec<F> = r.fields(nv);
    let rr: Vec<F> = r.fields(nv);
    let at: Vec<F> = cols.iter().map(|c| mle_eval(&c.evaluations, &z)).collect();
    let ck = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{} of {} variables differs from its definition", what, nv)) };
    ck(guard(|| evaluate_opt(&cols[0], &z))? == at[0], "evaluate_opt")?;
    ck(guard(|| evaluate_no_par(&cols[0], &z))? == at[0], "evaluate_no_par")?;
    let f = guard(|| fix_variables(&cols[0], &z[..cut]))?;
    ck(f.num_vars == nv - cut && mle_eval(&f.evaluations, &z[cut..]) == at[0], "fix_variables")?;
    let f = guard(|| fix_last_variables(&cols[0], &z[cut..]))?;
    ck(f.num_vars == cut && mle_eval(&f.evaluations, &z[..cut]) == at[0], "fix_last_variables")?;
    if cut < nv {
        let f = guard(|| fix_last_variables_no_par(&cols[0], &z[cut..]))?;
        ck(f.num_vars == cut && mle_eval(&f.evaluations, &z[..cut]) == at[0], "fix_last_variables_no_par")?;
    }
    let one = F::from(1u64);
    let eqz: F = z.iter().zip(&rr).map(|(a, b)| *a * b + (one - a) * (one - b)).product();
    let e = guard_res(|| build_eq_x_r(&rr))?;
    ck(e.num_vars == nv && mle_eval(&e.evaluations, &z) == eqz, "build_eq_x_r")?;
    ck(guard_res(|| eq_eval(&z, &rr))? == eqz, "eq_eval")?;
    let (k1, k2): (F, F) = (r.field(), r.field());
    let mut v = VirtualPolynomial::new(nv);
    guard_res(|| v.add_mle_list(cols.clone(), k1))?;
    guard_res(|| v.add_mle_list(vec![cols[0].clone(); m], k2))?;
    let want = k1 * at[0] * at[1] * at[2] + k2 * (0..m).map(|_| at[0]).product::<F>();
    ck(guard_res(|| v.evaluate(&z))? == want, "virtual polynomial")?;
    ck(guard_res(|| v.build_f_hat(&rr)?.evaluate(&z))? == want * eqz, "build_f_hat")?;
    let mat = guard(|| v.materialize())?;
    let rows: Vec<F> = (0..1usize << nv)
        .map(|i| {
            let x = |j: usize| cols[j].evaluations[i];
            k1 * x(0) * x(1) * x(2) + k2 * (0..m).map(|_| x(0)).product::<F>()
        })
        .collect();
    ck(mat.evaluations == rows, "materialize")?;
    let mg = guard_res(|| merge_polynomials(&cols))?;
    let flat: Vec<F> = cols.iter().flat_map(|c| c.evaluations.clone()).chain(vec![F::from(0u64); 1 << nv]).collect();
    ck(mg.evaluations == flat, "merge_polynomials")?;
    let ev = DenseMultilinearExtension::from_evaluations_vec(nv, mat.evaluations.clone());
    ck(ev.fix_variables(&z).evaluations[0] == mle_eval(&rows, &z), "fix_variables (ark)")
}

pub fn run(cases: &[Value], seed: u64, _kzg: bool) -> Report {
    let mut rep = Report::default();
    for (n, case) in cases.iter().enumerate() {
        rep.case();
        let mut st = St { cols: vec![], vps: vec![], recs: vec![] };
        let ops = arr(&case["ops"]);
        if n % (cases.len() / 2 + 1) == 0 {
            rep.sample(json!({"ops": ops.iter().map(|o| o["op"].clone()).collect::<Vec<_>>()}));
        }
        for (i, o) in ops.iter().enumerate() {
            rep.stat(&format!("{}.{}", o["op"].as_str().unwrap(), if o["ok"] == true { "ok" } else { "refused" }));
            if let Err(e) = st.step(o, seed.wrapping_mul(7919).wrapping_add((n * 64 + i) as u64)) {
                rep.violate(case, format!("operation {} ({}): {}", i + 1, o["op"].as_str().unwrap(), e));
                break;
            }
        }
        for r in st.recs {
            rep.records.push(json!({"rec": r, "case": case}));
        }
    }
    rep
}
