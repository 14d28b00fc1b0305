use crate::iops::{Params, E};
use zk_sql::subroutines::{MultilinearKzgPCS, PolynomialCommitmentScheme};

pub type Kzg = MultilinearKzgPCS<E>;

pub fn kzg_params(nv: usize) -> Params<Kzg> {
    let mut rng = ark_std::test_rng();
    let srs = Kzg::gen_srs_for_testing(&mut rng, nv).expect("srs");
    let (pp, vp) = Kzg::trim(&srs, None, Some(nv)).expect("trim");
    Params { pp, vp }
}
