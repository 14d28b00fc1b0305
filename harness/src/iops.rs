//! Replay of specification behaviours ("cases") through the real tracker, IOPs, prover and verifier.
//!
//! A case is a small program: committed input columns, then steps (IOP calls, tracker operations,
//! claims), then compile / verify.  The verdict predicted by the specification is compared with
//!   * the real verdict  (prover -> compile_proof -> verifier -> verify_claims), and
//!   * the ideal verdict (every claim the *verifier* recorded, evaluated on the committed columns).
use crate::util::*;
use ark_bls12_381::Bls12_381;
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use zk_sql::subroutines::PolynomialCommitmentScheme;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hooks::*;
use zk_sql::zksql_poly_iop::verif_hooks::*;

pub type E = Bls12_381;
pub type PT<P> = ProverTrackerRef<E, P>;
pub type VT<P> = VerifierTrackerRef<E, P>;

pub enum PIn<P: PolynomialCommitmentScheme<E>> {
    Vec(TrackedPoly<E, P>),
    Bag(Bag<E, P>),
    Tab(Table<E, P>),
}
pub enum VIn<P: PolynomialCommitmentScheme<E>> {
    Vec(TrackedComm<E, P>, usize),
    Bag(BagComm<E, P>),
    Tab(TableComm<E, P>),
}
impl<P: PolynomialCommitmentScheme<E>> Clone for PIn<P> {
    fn clone(&self) -> Self {
        match self {
            PIn::Vec(v) => PIn::Vec(v.clone()),
            PIn::Bag(v) => PIn::Bag(v.clone()),
            PIn::Tab(v) => PIn::Tab(v.clone()),
        }
    }
}
impl<P: PolynomialCommitmentScheme<E>> Clone for VIn<P> {
    fn clone(&self) -> Self {
        match self {
            VIn::Vec(v, n) => VIn::Vec(v.clone(), *n),
            VIn::Bag(v) => VIn::Bag(v.clone()),
            VIn::Tab(v) => VIn::Tab(v.clone()),
        }
    }
}
impl<P: PolynomialCommitmentScheme<E>> PIn<P> {
    pub fn vec(&self) -> &TrackedPoly<E, P> {
        match self {
            PIn::Vec(v) => v,
            _ => panic!("case error: vec expected"),
        }
    }
    pub fn bag(&self) -> &Bag<E, P> {
        match self {
            PIn::Bag(v) => v,
            _ => panic!("case error: bag expected"),
        }
    }
    pub fn tab(&self) -> &Table<E, P> {
        match self {
            PIn::Tab(v) => v,
            _ => panic!("case error: tab expected"),
        }
    }
}
impl<P: PolynomialCommitmentScheme<E>> VIn<P> {
    pub fn vec(&self) -> &TrackedComm<E, P> {
        match self {
            VIn::Vec(v, _) => v,
            _ => panic!("case error: vec expected"),
        }
    }
    pub fn bag(&self) -> &BagComm<E, P> {
        match self {
            VIn::Bag(v) => v,
            _ => panic!("case error: bag expected"),
        }
    }
    pub fn tab(&self) -> &TableComm<E, P> {
        match self {
            VIn::Tab(v) => v,
            _ => panic!("case error: tab expected"),
        }
    }
}

/// how specification integers become field elements
#[derive(Clone)]
pub enum Emb {
    Id,
    Scale(F),
    Inj(u64, bool),
}
impl Emb {
    pub fn from_case(c: &Value, seed: u64, k: u64) -> Emb {
        let seed = seed ^ (k << 8);
        let embs = arr(&c["embs"]);
        let e = if embs.is_empty() { "id" } else { embs[(k as usize / 5) % embs.len()].as_str().unwrap() };
        match e {
            "id" => Emb::Id,
            "scale" => Emb::Scale(F::from(1 + 2 * (Rng64::new(seed, 77).below(1 << 40)))),
            "inj" => Emb::Inj(seed, false),
            "inj0" => Emb::Inj(seed, true),
            o => panic!("case error: unknown embedding {}", o),
        }
    }
    pub fn map(&self, x: i64) -> F {
        match self {
            Emb::Id => fint(x),
            Emb::Scale(c) => fint::<F>(x) * c,
            Emb::Inj(s, z) => {
                if *z && x == 0 {
                    F::from(0u64)
                } else {
                    Rng64::new(*s, (x as u64).wrapping_add(0xABCDEF)).field()
                }
            }
        }
    }
    pub fn vec(&self, v: &Value) -> Vec<F> {
        ints(v).into_iter().map(|x| self.map(x)).collect()
    }
}

/// one committed column of the case, in commit order
pub struct Colm {
    pub evals: Vec<F>,
}
pub enum Layout {
    Vec(usize),
    Bag(usize, usize),
    Tab(Vec<usize>, usize),
}
pub fn layout(case: &Value, emb: &Emb) -> (Vec<Colm>, Vec<Layout>) {
    let mut cols = vec![];
    let mut lay = vec![];
    let mut push = |e: Vec<F>| -> usize {
        log2(e.len());
        cols.push(Colm { evals: e });
        cols.len() - 1
    };
    for i in arr(&case["in"]) {
        match i["k"].as_str().unwrap() {
            "vec" => {
                let v = if i["emb"].as_bool().unwrap_or(false) { emb.vec(&i["v"]) } else { fvec(&i["v"]) };
                lay.push(Layout::Vec(push(v)));
            }
            "bag" => {
                let a = push(emb.vec(&i["v"]));
                let b = push(fvec(&i["s"]));
                lay.push(Layout::Bag(a, b));
            }
            "tab" => {
                let c: Vec<usize> = arr(&i["c"]).iter().map(|c| push(emb.vec(c))).collect();
                let s = push(fvec(&i["s"]));
                lay.push(Layout::Tab(c, s));
            }
            o => panic!("case error: unknown input kind {}", o),
        }
    }
    (cols, lay)
}

pub fn mle(evals: &[F]) -> DenseMultilinearExtension<F> {
    DenseMultilinearExtension::from_evaluations_slice(log2(evals.len()), evals)
}

#[derive(Clone, Default)]
pub struct Dress {
    /// unrelated columns committed first: nv of each (larger ones force the mixed-size path)
    pub pre: Vec<usize>,
    /// every input column is the tracked sum of two committed shares instead of one commitment
    pub shares: bool,
    /// every input column is the tracked product of two committed ones
    pub prods: bool,
    /// equal input columns are one tracked column, used in several places
    pub same: bool,
    pub seed: u64,
}

/// the earlier column that column k is the same as
fn twin(cols: &[Colm], k: usize, d: &Dress) -> Option<usize> {
    if d.same { (0..k).find(|j| cols[*j].evals == cols[k].evals) } else { None }
}
pub fn has_twins(cols: &[Colm]) -> bool {
    let d = Dress { same: true, ..Default::default() };
    (0..cols.len()).any(|k| twin(cols, k, &d).is_some())
}
fn extra_evals(d: &Dress, k: usize, nv: usize) -> Vec<F> {
    Rng64::new(d.seed, 1000 + k as u64).fields(1 << nv)
}

pub fn commit_inputs<P: PolynomialCommitmentScheme<E>>(
    t: &mut PT<P>,
    cols: &[Colm],
    lay: &[Layout],
    d: &Dress,
) -> Result<Vec<PIn<P>>, PolyIOPErrors> {
    for (k, nv) in d.pre.iter().enumerate() {
        t.track_and_commit_poly(mle(&extra_evals(d, k, *nv)))?;
    }
    let mut ps: Vec<TrackedPoly<E, P>> = vec![];
    for (k, c) in cols.iter().enumerate() {
        if let Some(j) = twin(cols, k, d) {
            ps.push(ps[j].clone());
        } else if d.prods {
            let a: Vec<F> = Rng64::new(d.seed, 50 + k as u64).fields(c.evals.len());
            let b: Vec<F> = c.evals.iter().zip(&a).map(|(x, y)| *x / y).collect();
            let pa = t.track_and_commit_poly(mle(&a))?;
            let pb = t.track_and_commit_poly(mle(&b))?;
            ps.push(pa.mul_poly(&pb));
        } else if d.shares {
            let a: Vec<F> = Rng64::new(d.seed, 50 + k as u64).fields(c.evals.len());
            let b: Vec<F> = c.evals.iter().zip(&a).map(|(x, y)| *x - y).collect();
            let pa = t.track_and_commit_poly(mle(&a))?;
            let pb = t.track_and_commit_poly(mle(&b))?;
            ps.push(pa.add_poly(&pb));
        } else {
            ps.push(t.track_and_commit_poly(mle(&c.evals))?);
        }
    }
    Ok(lay
        .iter()
        .map(|l| match l {
            Layout::Vec(i) => PIn::Vec(ps[*i].clone()),
            Layout::Bag(i, j) => PIn::Bag(Bag::new(ps[*i].clone(), ps[*j].clone())),
            Layout::Tab(c, s) => PIn::Tab(Table::new(c.iter().map(|i| ps[*i].clone()).collect(), ps[*s].clone())),
        })
        .collect())
}

pub fn transfer_inputs<P: PolynomialCommitmentScheme<E>>(
    t: &mut VT<P>,
    cols: &[Colm],
    lay: &[Layout],
    d: &Dress,
) -> Vec<VIn<P>> {
    for _ in d.pre.iter() {
        let id = t.get_next_id();
        t.transfer_prover_comm(id);
    }
    let mut ps: Vec<(TrackedComm<E, P>, usize)> = vec![];
    for (k, c) in cols.iter().enumerate() {
        if let Some(j) = twin(cols, k, d) {
            ps.push(ps[j].clone());
            continue;
        }
        let id = t.get_next_id();
        let a = t.transfer_prover_comm(id);
        let comm = if d.shares || d.prods {
            let id = t.get_next_id();
            let b = t.transfer_prover_comm(id);
            if d.prods { a.mul_comms(&b) } else { a.add_comms(&b) }
        } else {
            a
        };
        ps.push((comm, log2(c.evals.len())));
    }
    lay.iter()
        .map(|l| match l {
            Layout::Vec(i) => VIn::Vec(ps[*i].0.clone(), ps[*i].1),
            Layout::Bag(i, j) => VIn::Bag(BagComm::new(ps[*i].0.clone(), ps[*j].0.clone(), ps[*i].1)),
            Layout::Tab(c, s) => VIn::Tab(TableComm::new(
                c.iter().map(|i| ps[*i].0.clone()).collect(),
                ps[*s].0.clone(),
                ps[*s].1,
            )),
        })
        .collect()
}

pub fn us(v: &Value) -> usize {
    v.as_u64().expect("case error: usize") as usize
}

pub fn prove_step<P: PolynomialCommitmentScheme<E>>(
    t: &mut PT<P>,
    env: &mut Vec<PIn<P>>,
    st: &Value,
) -> Result<(), PolyIOPErrors> {
    let a: Vec<PIn<P>> = arr(&st["args"]).iter().map(|i| env[us(i)].clone()).collect();
    let p = &st["p"];
    match st["op"].as_str().unwrap() {
        "multitool" => {
            let (nf, ng) = (us(&p["nf"]), us(&p["ng"]));
            let f: Vec<_> = a[..nf].iter().map(|x| x.bag().clone()).collect();
            let g: Vec<_> = a[nf..nf + ng].iter().map(|x| x.bag().clone()).collect();
            let (nmf, nmg) = (p["nmf"].as_u64().map(|x| x as usize).unwrap_or(nf), p["nmg"].as_u64().map(|x| x as usize).unwrap_or(ng));
            let mf: Vec<_> = a[nf + ng..nf + ng + nmf].iter().map(|x| x.vec().clone()).collect();
            let mg: Vec<_> = a[nf + ng + nmf..nf + ng + nmf + nmg].iter().map(|x| x.vec().clone()).collect();
            BagMultitoolIOP::<E, P>::prove(t, &f, &g, &mf, &mg)?
        }
        "bag_eq" => BagEqIOP::<E, P>::prove(t, a[0].bag(), a[1].bag())?,
        "bag_sum" => BagSumIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "inclusion" => BagInclusionIOP::<E, P>::prove(t, a[0].bag(), a[1].bag())?,
        "inclusion_adv" => BagInclusionIOP::<E, P>::prove_with_advice(t, a[0].bag(), a[1].bag(), a[2].vec())?,
        "no_zeros" => BagNoZerosIOP::<E, P>::prove(t, a[0].bag())?,
        "sel_valid" => SelectorValidIOP::<E, P>::prove(t, a[0].vec())?,
        "presc_perm" => BagPrescPermIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].vec())?,
        "strict_sort" => BagStrictSortIOP::<E, P>::prove(t, a[0].bag(), a[1].bag())?,
        "supp" => BagSuppIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "supp_adv" => BagSuppIOP::<E, P>::prove_with_advice(t, a[0].bag(), a[1].bag(), a[2].vec(), a[3].bag())?,
        "bag_disjoint" => BagDisjointIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "bag_disjoint_adv" => BagDisjointIOP::<E, P>::prove_with_advice(
            t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].vec(), a[4].vec(), a[5].bag(),
        )?,
        "set_disjoint" => SetDisjointIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "set_union" => SetUnionIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].bag())?,
        "set_diff" => SetDiffIOP::<E, P>::prove(
            t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].bag(), a[4].vec(), a[5].bag(),
        )?,
        "set_intersect" => SetIntersectIOP::<E, P>::prove(
            t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].bag(), a[4].bag(), a[5].bag(),
        )?,
        "join_reduction" => {
            JoinReductionIOP::<E, P>::prove(t, a[0].bag(), a[1].bag(), a[2].vec(), a[3].vec(), a[4].bag())?
        }
        "index_transform" => IndexTransformIOP::<E, P>::prove(t, a[0].tab(), a[1].tab())?,
        "final_join" => {
            let r = FinalJoinOneToManyIOP::<E, P>::prove(t, a[0].tab(), a[1].tab(), us(&p["ai"]), us(&p["bi"]))?;
            env.push(PIn::Tab(r));
        }
        "final_join_adv" => {
            let cols: Vec<_> = a[2..].iter().map(|x| x.vec().clone()).collect();
            let r = FinalJoinOneToManyIOP::<E, P>::prove_with_advice(
                t, a[0].tab(), a[1].tab(), us(&p["ai"]), us(&p["bi"]), &cols,
            )?;
            env.push(PIn::Tab(r));
        }
        "cross_product" => {
            let r = CrossProductIOP::<E, P>::prover_cross_product(a[0].tab(), a[1].tab())?;
            env.push(PIn::Tab(r));
        }
        "group_by" => {
            // args: table, supp bag, multiplicity vec, agg vecs.., range bag last
            let aggs = arr(&p["aggs"]);
            let mut agg_instr = vec![];
            for (k, g) in aggs.iter().enumerate() {
                agg_instr.push((us(&g["col"]), agg_type(&g["t"]), a[3 + k].vec().clone()));
            }
            let instr = GroupByInstructionWithProvingAdvice {
                grouping_cols: arr(&p["g"]).iter().map(us).collect(),
                support_cols: vec![a[1].bag().poly.clone()],
                support_sel: a[1].bag().selector.clone(),
                support_multiplicity: a[2].vec().clone(),
                agg_instr,
            };
            let r = GroupByIOP::<E, P>::prove_with_advice(t, a[0].tab(), &instr, a[a.len() - 1].bag())?;
            env.push(PIn::Tab(r));
        }
        // tracker operations
        "add" => env.push(PIn::Vec(a[0].vec().add_poly(a[1].vec()))),
        "sub" => env.push(PIn::Vec(a[0].vec().sub_poly(a[1].vec()))),
        "mul" => env.push(PIn::Vec(a[0].vec().mul_poly(a[1].vec()))),
        "adds" => env.push(PIn::Vec(a[0].vec().add_scalar(fint(p["c"].as_i64().unwrap())))),
        "muls" => env.push(PIn::Vec(a[0].vec().mul_scalar(fint(p["c"].as_i64().unwrap())))),
        "incf" => env.push(PIn::Vec(a[0].vec().increase_nv_front(us(&p["n"])))),
        "incb" => env.push(PIn::Vec(a[0].vec().increase_nv_back(us(&p["n"])))),
        "zero" => t.add_zerocheck_claim(a[0].vec().id),
        "sum" | "sum_get" => t.add_sumcheck_claim(a[0].vec().id, fint(p["c"].as_i64().unwrap())),
        "tabcol" => env.push(PIn::Vec(a[0].tab().col_vals[us(&p["i"])].clone())),
        "tabsel" => env.push(PIn::Vec(a[0].tab().selector.clone())),
        "mkbag" => env.push(PIn::Bag(Bag::new(a[0].vec().clone(), a[1].vec().clone()))),
        "mktab" => {
            let n = a.len() - 1;
            env.push(PIn::Tab(Table::new(
                a[..n].iter().map(|x| x.vec().clone()).collect(),
                a[n].vec().clone(),
            )))
        }
        "bagval" => env.push(PIn::Vec(a[0].bag().poly.clone())),
        "bagsel" => env.push(PIn::Vec(a[0].bag().selector.clone())),
        "commit" => {
            let c = t.track_and_commit_poly(mle(&fvec(&p["v"])))?;
            env.push(PIn::Vec(c))
        }
        "pub" => {
            let c = t.track_mat_poly(mle(&fvec(&p["v"])));
            env.push(PIn::Vec(c))
        }
        "chal" => {
            t.get_and_append_challenge(b"prog challenge")?;
        }
        "absorb" => t.append_serializable_element(b"prog message", &fint::<F>(p["c"].as_i64().unwrap()))?,
        o => panic!("case error: unknown step {}", o),
    }
    Ok(())
}

fn agg_type(v: &Value) -> AggregationType {
    match v.as_str().unwrap() {
        "count" => AggregationType::Count,
        "sum" => AggregationType::Sum,
        o => panic!("case error: aggregation {}", o),
    }
}

pub fn verify_step<P: PolynomialCommitmentScheme<E>>(
    t: &mut VT<P>,
    env: &mut Vec<VIn<P>>,
    st: &Value,
    nv_total: usize,
) -> Result<(), PolyIOPErrors> {
    let a: Vec<VIn<P>> = arr(&st["args"]).iter().map(|i| env[us(i)].clone()).collect();
    let nv = |v: &VIn<P>| match v {
        VIn::Vec(_, n) => *n,
        _ => panic!("case error: vec expected"),
    };
    let p = &st["p"];
    match st["op"].as_str().unwrap() {
        "multitool" => {
            let (nf, ng) = (us(&p["nf"]), us(&p["ng"]));
            let f: Vec<_> = a[..nf].iter().map(|x| x.bag().clone()).collect();
            let g: Vec<_> = a[nf..nf + ng].iter().map(|x| x.bag().clone()).collect();
            let (nmf, nmg) = (p["nmf"].as_u64().map(|x| x as usize).unwrap_or(nf), p["nmg"].as_u64().map(|x| x as usize).unwrap_or(ng));
            let mf: Vec<_> = a[nf + ng..nf + ng + nmf].iter().map(|x| x.vec().clone()).collect();
            let mg: Vec<_> = a[nf + ng + nmf..nf + ng + nmf + nmg].iter().map(|x| x.vec().clone()).collect();
            BagMultitoolIOP::<E, P>::verify(t, &f, &g, &mf, &mg)?
        }
        "bag_eq" => BagEqIOP::<E, P>::verify(t, a[0].bag(), a[1].bag())?,
        "bag_sum" => BagSumIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "inclusion" => BagInclusionIOP::<E, P>::verify(t, a[0].bag(), a[1].bag())?,
        "inclusion_adv" => BagInclusionIOP::<E, P>::verify_with_advice(t, a[0].bag(), a[1].bag(), a[2].vec())?,
        "no_zeros" => BagNoZerosIOP::<E, P>::verify(t, a[0].bag())?,
        "sel_valid" => SelectorValidIOP::<E, P>::verify(t, a[0].vec())?,
        "presc_perm" => BagPrescPermIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].vec())?,
        "strict_sort" => BagStrictSortIOP::<E, P>::verify(t, a[0].bag(), a[1].bag())?,
        "supp" => BagSuppIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "supp_adv" => BagSuppIOP::<E, P>::verify_with_advice(t, a[0].bag(), a[1].bag(), a[2].vec(), a[3].bag())?,
        "bag_disjoint" => BagDisjointIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "bag_disjoint_adv" => BagDisjointIOP::<E, P>::verify_with_advice(
            t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].vec(), a[4].vec(), a[5].bag(),
        )?,
        "set_disjoint" => SetDisjointIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].bag())?,
        "set_union" => SetUnionIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].bag())?,
        "set_diff" => SetDiffIOP::<E, P>::verify(
            t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].bag(), a[4].vec(), a[5].bag(),
        )?,
        "set_intersect" => SetIntersectIOP::<E, P>::verify(
            t, a[0].bag(), a[1].bag(), a[2].bag(), a[3].bag(), a[4].bag(), a[5].bag(),
        )?,
        "join_reduction" => {
            JoinReductionIOP::<E, P>::verify(t, a[0].bag(), a[1].bag(), a[2].vec(), a[3].vec(), a[4].bag())?
        }
        "index_transform" => IndexTransformIOP::<E, P>::verify(t, a[0].tab(), a[1].tab())?,
        "final_join" => {
            let r = FinalJoinOneToManyIOP::<E, P>::verify(t, a[0].tab(), a[1].tab(), us(&p["ai"]), us(&p["bi"]))?;
            env.push(VIn::Tab(r));
        }
        "final_join_adv" => {
            let cols: Vec<_> = a[2..].iter().map(|x| x.vec().clone()).collect();
            let r = FinalJoinOneToManyIOP::<E, P>::verify_with_advice(
                t, a[0].tab(), a[1].tab(), us(&p["ai"]), us(&p["bi"]), &cols,
            )?;
            env.push(VIn::Tab(r));
        }
        "cross_product" => {
            let r = CrossProductIOP::<E, P>::verifier_cross_product(a[0].tab(), a[1].tab())?;
            env.push(VIn::Tab(r));
        }
        "group_by" => {
            let aggs = arr(&p["aggs"]);
            let mut agg_instr = vec![];
            for (k, g) in aggs.iter().enumerate() {
                agg_instr.push((us(&g["col"]), agg_type(&g["t"]), a[3 + k].vec().clone()));
            }
            let instr = GroupByInstructionWithVerifyingAdvice {
                grouping_cols: arr(&p["g"]).iter().map(us).collect(),
                support_cols: vec![a[1].bag().poly.clone()],
                support_sel: a[1].bag().selector.clone(),
                support_multiplicity: a[2].vec().clone(),
                agg_instr,
            };
            let r = GroupByIOP::<E, P>::verify_with_advice(t, a[0].tab(), &instr, a[a.len() - 1].bag())?;
            env.push(VIn::Tab(r));
        }
        "add" => env.push(VIn::Vec(a[0].vec().add_comms(a[1].vec()), nv(&a[0]))),
        "sub" => env.push(VIn::Vec(a[0].vec().sub_comms(a[1].vec()), nv(&a[0]))),
        "mul" => env.push(VIn::Vec(a[0].vec().mul_comms(a[1].vec()), nv(&a[0]))),
        "adds" => env.push(VIn::Vec(a[0].vec().add_scalar(fint(p["c"].as_i64().unwrap())), nv(&a[0]))),
        "muls" => env.push(VIn::Vec(a[0].vec().mul_scalar(fint(p["c"].as_i64().unwrap())), nv(&a[0]))),
        "incf" => env.push(VIn::Vec(a[0].vec().increase_nv_front(us(&p["n"])), nv(&a[0]) + us(&p["n"]))),
        "incb" => env.push(VIn::Vec(a[0].vec().increase_nv_back(us(&p["n"])), nv(&a[0]) + us(&p["n"]))),
        "zero" => t.add_zerocheck_claim(a[0].vec().id),
        "sum" => {
            let scale = F::from(2u64.pow((nv_total - nv(&a[0])) as u32));
            t.add_sumcheck_claim(a[0].vec().id, fint::<F>(p["c"].as_i64().unwrap()) * scale)
        }
        "sum_get" => {
            let s = t.get_prover_claimed_sum(a[0].vec().id);
            t.add_sumcheck_claim(a[0].vec().id, s)
        }
        "tabcol" => env.push(VIn::Vec(a[0].tab().col_vals[us(&p["i"])].clone(), a[0].tab().num_vars())),
        "tabsel" => env.push(VIn::Vec(a[0].tab().selector.clone(), a[0].tab().num_vars())),
        "mkbag" => env.push(VIn::Bag(BagComm::new(a[0].vec().clone(), a[1].vec().clone(), nv(&a[0])))),
        "mktab" => {
            let n = a.len() - 1;
            env.push(VIn::Tab(TableComm::new(
                a[..n].iter().map(|x| x.vec().clone()).collect(),
                a[n].vec().clone(),
                nv(&a[n]),
            )))
        }
        "bagval" => env.push(VIn::Vec(a[0].bag().poly.clone(), a[0].bag().num_vars())),
        "bagsel" => env.push(VIn::Vec(a[0].bag().selector.clone(), a[0].bag().num_vars())),
        "commit" => {
            let id = t.get_next_id();
            let c = t.transfer_prover_comm(id);
            env.push(VIn::Vec(c, log2(ints(&p["v"]).len())))
        }
        "pub" => {
            let v: Vec<F> = fvec(&p["v"]);
            let n = log2(v.len());
            let c = t.track_virtual_comm(Box::new(move |pt: &[F]| Ok(mle_eval(&v, pt))));
            env.push(VIn::Vec(c, n))
        }
        "chal" => {
            t.get_and_append_challenge(b"prog challenge")?;
        }
        "absorb" => t.append_serializable_element(b"prog message", &fint::<F>(p["c"].as_i64().unwrap()))?,
        o => panic!("case error: unknown step {}", o),
    }
    Ok(())
}

/// What one replay of a case did.
pub struct Outcome {
    pub real: Result<(), String>,
    pub ideal: Result<(), String>,
    pub problems: Vec<String>,
    pub stage: &'static str,
    pub claims: usize,
}

pub struct Params<P: PolynomialCommitmentScheme<E>> {
    pub pp: P::ProverParam,
    pub vp: P::VerifierParam,
}

/// The committed columns as the prover knew them before compile_proof resized anything.
pub fn committed<P: PolynomialCommitmentScheme<E>>(pre: &ProverTracker<E, P>) -> BTreeMap<TrackerID, Vec<F>> {
    pre.materialized_comms
        .keys()
        .map(|id| (*id, pre.materialized_polys[id].evaluations.clone()))
        .collect()
}

/// Evaluate every claim the verifier recorded on the committed columns (no proof involved).
pub fn ideal_claims<P: PolynomialCommitmentScheme<E>>(
    vt: &VerifierTracker<E, P>,
    pre: &ProverTracker<E, P>,
    nv_total: usize,
) -> Result<usize, String> {
    let cols = committed(pre);
    {
        let q: &std::cell::RefCell<HashMap<(TrackerID, Vec<F>), F>> = &vt.query_map;
        let mut q = q.borrow_mut();
        q.clear();
        for (id, e) in &cols {
            let n = log2(e.len());
            for (i, v) in e.iter().enumerate() {
                q.insert((*id, bool_point(i, n)), *v);
            }
        }
    }
    let nv_of = |id: TrackerID| guard(|| pre.get_poly_nv(id)).map_err(|e| format!("claim on an id the prover does not know: {}", e));
    let mut n = 0;
    for c in &vt.zero_check_claims {
        let nv = nv_of(c.label)?;
        for i in 0..1usize << nv {
            let v = guard_res(|| vt.eval_virtual_comm(c.label, &bool_point(i, nv)))
                .map_err(|e| format!("unevaluable zero claim {}: {}", c.label, e))?;
            if v != F::from(0u64) {
                return Err(format!("zero claim {} is false at row {}", c.label, i));
            }
        }
        n += 1;
    }
    for c in &vt.sum_check_claims {
        let nv = nv_of(c.label)?;
        let mut s = F::from(0u64);
        for i in 0..1usize << nv {
            s += guard_res(|| vt.eval_virtual_comm(c.label, &bool_point(i, nv)))
                .map_err(|e| format!("unevaluable sum claim {}: {}", c.label, e))?;
        }
        if s * F::from(2u64.pow((nv_total - nv) as u32)) != c.claimed_sum {
            return Err(format!("sum claim {} is false", c.label));
        }
        n += 1;
    }
    Ok(n)
}

pub fn vt_eval_vec<P: PolynomialCommitmentScheme<E>>(
    vt: &VerifierTracker<E, P>,
    id: TrackerID,
    nv: usize,
) -> Result<Vec<F>, String> {
    (0..1usize << nv).map(|i| guard_res(|| vt.eval_virtual_comm(id, &bool_point(i, nv)))).collect()
}

pub type ProveFn<'a, P> = dyn Fn(&mut PT<P>, &mut Vec<PIn<P>>, &Value) -> Result<(), PolyIOPErrors> + 'a;

pub fn play<P: PolynomialCommitmentScheme<E>>(
    prm: &Params<P>,
    case: &Value,
    emb: &Emb,
    d: &Dress,
    prove: &ProveFn<P>,
) -> Outcome {
    let mut problems = vec![];
    let (cols, lay) = layout(case, emb);
    let steps = arr(&case["steps"]);
    let rej = |stage, e: String, problems| Outcome { real: Err(e.clone()), ideal: Err(e), problems, stage, claims: 0 };

    // ---- prover
    let mut pt: PT<P> = ProverTrackerRef::new_from_pcs_params(prm.pp.clone());
    let mut penv = match guard_res(|| commit_inputs(&mut pt, &cols, &lay, d)) {
        Ok(e) => e,
        Err(e) => return rej("commit", e, problems),
    };
    for st in &steps {
        if let Err(e) = guard_res(|| prove(&mut pt, &mut penv, st)) {
            if e.contains("case error") {
                panic!("{}", e);
            }
            return rej("prove", e, problems);
        }
    }
    // outputs predicted by the specification, prover's side (compile_proof resizes the prover's columns)
    for o in arr(&case["outs"]) {
        check_out_prover(&o, emb, &penv[us(&o["at"])], &mut problems);
    }
    let pre = pt.clone_underlying_tracker();
    let proof = match guard_res(|| pt.compile_proof()) {
        Ok(p) => p,
        Err(e) => return rej("compile", e, problems),
    };
    let nv_total = proof.sc_aux_info.num_variables;

    // ---- verifier, real decision
    let run_verifier = || -> Result<(VT<P>, Vec<VIn<P>>), String> {
        let mut vt: VT<P> = VerifierTrackerRef::new_from_pcs_params(prm.vp.clone());
        vt.set_compiled_proof(proof.clone());
        let mut venv = guard(|| transfer_inputs(&mut vt, &cols, &lay, d)).map_err(|e| format!("transfer: {}", e))?;
        for st in &steps {
            guard_res(|| verify_step(&mut vt, &mut venv, st, nv_total))?;
        }
        Ok((vt, venv))
    };
    let (real, verified) = match run_verifier() {
        Err(e) => (Err(e), false),
        Ok((vt, _)) => (guard_res(|| vt.verify_claims()), true),
    };
    if let Err(e) = &real {
        if e.contains("case error") {
            panic!("{}", e);
        }
    }
    let mut claims = 0;
    // ---- verifier, ideal decision (a fresh verifier)
    let ideal = if !verified {
        Err(real.clone().err().unwrap())
    } else {
        run_verifier().and_then(|(vt, venv)| {
            let ut = vt.clone_underlying_tracker();
            let r = ideal_claims(&ut, &pre, nv_total);
            // outputs predicted by the specification
            for o in arr(&case["outs"]) {
                let idx = us(&o["at"]);
                check_out_verifier(&o, emb, &venv[idx], &ut, &mut problems);
            }
            r.map(|n| claims = n)
        })
    };
    Outcome { real, ideal, problems, stage: "done", claims }
}

fn differs(want: &[F], mask: Option<&[i64]>, got: &[F]) -> bool {
    let on = |i: usize| mask.map(|m| m[i] != 0).unwrap_or(true);
    got.len() != want.len() || (0..want.len()).any(|i| on(i) && got[i] != want[i])
}

fn check_p<P: PolynomialCommitmentScheme<E>>(what: &str, want: &[F], mask: Option<&[i64]>, p: &TrackedPoly<E, P>, problems: &mut Vec<String>) {
    match guard(|| p.evaluations()) {
        Ok(e) => {
            if differs(want, mask, &e) {
                problems.push(format!("{}: prover's column differs from the specified one", what));
            }
            if p.num_vars() != log2(want.len()) {
                problems.push(format!("{}: prover's column has {} variables, not {}", what, p.num_vars(), log2(want.len())));
            }
        }
        Err(e) => problems.push(format!("{}: prover cannot evaluate: {}", what, e)),
    }
}
fn check_v<P: PolynomialCommitmentScheme<E>>(
    what: &str,
    want: &[F],
    mask: Option<&[i64]>,
    v: &TrackedComm<E, P>,
    ut: &VerifierTracker<E, P>,
    problems: &mut Vec<String>,
) {
    match vt_eval_vec(ut, v.id, log2(want.len())) {
        Ok(e) => {
            if differs(want, mask, &e) {
                problems.push(format!("{}: verifier's column differs from the specified one", what));
            }
        }
        Err(e) => problems.push(format!("{}: verifier cannot evaluate: {}", what, e)),
    }
}

/// column k of a specified table: (values, selector); only selected rows count
fn out_cols(o: &Value, emb: &Emb) -> (Vec<Vec<F>>, Vec<i64>) {
    let noemb = ints(&o["noemb"]);
    let cols = arr(&o["c"])
        .iter()
        .enumerate()
        .map(|(k, c)| if noemb.contains(&(k as i64)) { fvec(c) } else { emb.vec(c) })
        .collect();
    (cols, ints(&o["s"]))
}

fn check_out_prover<P: PolynomialCommitmentScheme<E>>(o: &Value, emb: &Emb, p: &PIn<P>, problems: &mut Vec<String>) {
    match p {
        PIn::Vec(p) => check_p("vec", &fvec(&o["v"]), None, p, problems),
        PIn::Tab(p) => {
            let (cols, sel) = out_cols(o, emb);
            if p.col_vals.len() != cols.len() {
                problems.push(format!("prover's result table has {} columns, not {}", p.col_vals.len(), cols.len()));
                return;
            }
            if p.num_vars() != log2(sel.len()) {
                problems.push(format!("prover's result table has {} variables, not {}", p.num_vars(), log2(sel.len())));
            }
            for (k, c) in cols.iter().enumerate() {
                check_p(&format!("table column {}", k), c, Some(&sel), &p.col_vals[k], problems);
            }
            check_p("table selector", &fvec(&o["s"]), None, &p.selector, problems);
        }
        _ => panic!("case error: output kind"),
    }
}

fn check_out_verifier<P: PolynomialCommitmentScheme<E>>(
    o: &Value,
    emb: &Emb,
    v: &VIn<P>,
    ut: &VerifierTracker<E, P>,
    problems: &mut Vec<String>,
) {
    match v {
        VIn::Vec(v, _) => check_v("vec", &fvec(&o["v"]), None, v, ut, problems),
        VIn::Tab(v) => {
            let (cols, sel) = out_cols(o, emb);
            if v.col_vals.len() != cols.len() {
                problems.push(format!("verifier's result table has {} columns, not {}", v.col_vals.len(), cols.len()));
                return;
            }
            if v.num_vars() != log2(sel.len()) {
                problems.push(format!("verifier's result table has {} variables, not {}", v.num_vars(), log2(sel.len())));
            }
            for (k, c) in cols.iter().enumerate() {
                check_v(&format!("table column {}", k), c, Some(&sel), &v.col_vals[k], ut, problems);
            }
            check_v("table selector", &fvec(&o["s"]), None, &v.selector, ut, problems);
        }
        _ => panic!("case error: output kind"),
    }
}
