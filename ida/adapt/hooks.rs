//! Optional inputs that the integrator stores and obeys but gives the user no way to set yet
//! (SUNDIALS: IDASetStopTime, IDASetMaxOrd, IDASetMaxStep, IDASetInitStep, IDASetRootDirection).
use crate::linear::LSolver;
use crate::nonlinear::NLSolver;
use crate::tol_control::TolControl;
use crate::traits::IdaProblem;
use crate::Ida;

impl<P, LS, NLS, TolC> Ida<P, LS, NLS, TolC>
where
    P: IdaProblem,
    LS: LSolver<P::Scalar>,
    NLS: NLSolver<P>,
    TolC: TolControl<P::Scalar>,
{
    pub fn verif_set_tstop(&mut self, t: Option<P::Scalar>) {
        self.ida_tstop = t;
    }
    pub fn verif_set_max_order(&mut self, k: usize) {
        self.ida_maxord = k;
    }
    pub fn verif_set_hmax_inv(&mut self, h: P::Scalar) {
        self.ida_hmax_inv = h;
    }
    pub fn verif_set_init_step(&mut self, h: P::Scalar) {
        self.ida_hin = h;
    }
    pub fn verif_set_mxstep(&mut self, n: u64) {
        self.ida_mxstep = n;
    }
    pub fn verif_set_max_fails(&mut self, ncf: u64, nef: u64) {
        self.ida_maxncf = ncf;
        self.ida_maxnef = nef;
    }
    pub fn verif_set_epcon(&mut self, x: P::Scalar) {
        self.ida_epcon = x;
    }
    /// leave the components that are not differential out of the error tests
    pub fn verif_suppress_alg(&mut self, differential: &[bool]) {
        for (a, b) in self.ida_id.iter_mut().zip(differential) {
            *a = *b;
        }
        self.ida_suppressalg = true;
    }
    /// search only for roots where function i increases
    pub fn verif_set_root_increasing(&mut self, i: usize) {
        self.ida_rootdir[i] = 1;
    }
}
