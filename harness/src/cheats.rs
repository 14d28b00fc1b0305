//! Adversarial provers.  The real prover code runs, but advice columns it commits are exchanged,
//! at the moment of commitment, for the lies the specification's adversary chose.  Everything the
//! prover derives later (inverses, sums, openings) is then consistent with the lie, because the
//! committed polynomial itself is changed in place.

use crate::util::*;
use serde_json::Value;
use std::cell::RefCell;

enum Lie {
    /// a column to recognise and what to commit instead
    Col { from: Vec<F>, to: Vec<F>, used: bool },
    /// "inverse" column of v: commit w/v instead
    Inv { v: Vec<F>, w: Vec<F>, used: bool },
    /// falsify the target's inverse column so that both sides of the lookup add up
    /// (v: bag, row, component; `rows`: the code folds the components with challenges of its own)
    Mt { nf: usize, t: usize, rows: bool, v: Vec<Vec<Vec<F>>>, w: Vec<Vec<F>>, skip: usize, used: bool },
}

thread_local! {
    static LIES: RefCell<Vec<Lie>> = const { RefCell::new(vec![]) };
}

/// loads the lies of a case; `skip`: how many earlier look-alikes a lookup lie lets pass
pub fn load(case: &Value, skip: usize) {
    let mut v = vec![];
    for l in arr(&case["cheat"]) {
        match l["op"].as_str().unwrap() {
            "MT" => v.push(Lie::Mt {
                nf: l["nf"].as_u64().unwrap() as usize,
                t: l["t"].as_u64().unwrap() as usize,
                rows: l["rows"].as_bool().unwrap(),
                v: arr(&l["v"])
                    .iter()
                    .map(|b| arr(b).iter().map(|r| if r.is_array() { fvec(r) } else { vec![fint(r.as_i64().unwrap())] }).collect())
                    .collect(),
                w: arr(&l["w"]).iter().map(fvec).collect(),
                skip,
                used: false,
            }),
            "no_zeros" => v.push(Lie::Inv { v: fvec(&l["inv"]), w: fvec(&l["to"][0]), used: false }),
            _ => {
                for (a, b) in arr(&l["from"]).iter().zip(arr(&l["to"]).iter()) {
                    if a != b {
                        v.push(Lie::Col { from: fvec(a), to: fvec(b), used: false });
                    }
                }
            }
        }
    }
    LIES.with(|l| *l.borrow_mut() = v);
}

pub fn clear() {
    LIES.with(|l| l.borrow_mut().clear());
}

/// (told, all)
pub fn told() -> (usize, usize) {
    LIES.with(|l| {
        let l = l.borrow();
        let n = l
            .iter()
            .filter(|x| match x {
                Lie::Col { used, .. } | Lie::Inv { used, .. } | Lie::Mt { used, .. } => *used,
            })
            .count();
        (n, l.len())
    })
}

fn zero() -> F {
    F::from(0u64)
}
fn inv(x: F) -> Option<F> {
    use ark_ff::Field;
    x.inverse()
}

fn dot(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}

/// is `e` the column of inverses 1/(fold(v_i) - gamma) for some gamma, where fold is the value itself
/// or (`rows`) some fixed linear combination of the components?  Returns the combination and gamma.
fn unfold(v: &[Vec<F>], e: &[F], rows: bool) -> Option<(Vec<F>, F)> {
    let k = v[0].len();
    let y: Vec<F> = e.iter().map(|x| inv(*x)).collect::<Option<_>>()?;
    if !rows {
        let g = v[0][0] - y[0];
        return (0..e.len()).all(|i| v[i][0] - g == y[i]).then(|| (vec![F::from(1u64)], g));
    }
    // y_i = sum_c x_c v_i,c - gamma, by elimination; the solution must be unique and overdetermined
    let n = k + 1;
    if e.len() <= n {
        return None;
    }
    let mut m: Vec<Vec<F>> = (0..e.len())
        .map(|i| {
            let mut r = v[i].clone();
            r.push(-F::from(1u64));
            r.push(y[i]);
            r
        })
        .collect();
    for c in 0..n {
        let p = (c..m.len()).find(|r| m[*r][c] != zero())?;
        m.swap(c, p);
        let d = inv(m[c][c])?;
        for x in m[c].iter_mut() {
            *x *= d;
        }
        for r in 0..m.len() {
            if r != c && m[r][c] != zero() {
                let f = m[r][c];
                for q in 0..=n {
                    let z = m[c][q];
                    m[r][q] -= f * z;
                }
            }
        }
    }
    if m[n..].iter().any(|r| r[n] != zero()) {
        return None;
    }
    let x: Vec<F> = (0..k).map(|c| m[c][n]).collect();
    Some((x, m[k][n]))
}

/// what to commit instead of this column
pub fn intercept(e: &[F]) -> Option<Vec<F>> {
    LIES.with(|l| {
        for lie in l.borrow_mut().iter_mut() {
            match lie {
                Lie::Col { from, to, used } => {
                    if !*used && from.as_slice() == e && to.len() == e.len() {
                        *used = true;
                        return Some(to.clone());
                    }
                }
                Lie::Inv { v, w, used } => {
                    let is = v.len() == e.len() && v.iter().zip(e).all(|(x, y)| if *x == zero() { *y == zero() } else { *x * y == F::from(1u64) });
                    if !*used && is {
                        *used = true;
                        return Some((0..e.len()).map(|i| e[i] * w[i]).collect());
                    }
                }
                Lie::Mt { nf, t, rows, v, w, skip, used } => {
                    if *used || v[*t].len() != e.len() {
                        continue;
                    }
                    let Some((x, g0)) = unfold(&v[*t], e, *rows) else { continue };
                    if *skip > 0 {
                        *skip -= 1;
                        continue;
                    }
                    *used = true;
                    let mut d = zero();
                    for b in 0..v.len() {
                        for i in 0..v[b].len() {
                            let Some(x) = inv(dot(&v[b][i], &x) - g0) else { return None };
                            if b < *nf {
                                d += w[b][i] * x;
                            } else {
                                d -= w[b][i] * x;
                            }
                        }
                    }
                    let j = (0..e.len()).find(|j| w[*t][*j] != zero()).expect("case error: no row can carry the lie");
                    let c = d * inv(w[*t][j]).unwrap();
                    let mut out = e.to_vec();
                    if *t < *nf {
                        out[j] -= c;
                    } else {
                        out[j] += c;
                    }
                    return Some(out);
                }
            }
        }
        None
    })
}
