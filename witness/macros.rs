// Uses of adv_fn!, adv_fn_obj! and adv_dvec! in every form the macros document. The bodies only move
// components about, so that the expansion alone decides what a call does.
// ROOT is replaced by the path of the crate.
#![deny(unused_variables)]
use ROOT::prelude::*;
use ROOT::DVector;

pub const DIM: usize = 2;

adv_fn! {
    fn v_plain(v: [[3]]) -> [[3]] {
        adv_dvec![v[2], v[0], v[1]]
    }
}
adv_fn! {
    /// attributes and documentation
    #[allow(unused_variables)]
    pub fn v_attr(v: [[3]], unused: f64) -> [[1]] {
        let nothing = 0;
        adv_dvec![v[1]]
    }
}
adv_fn! {
    pub(crate) fn v_extra(v: [[4]], i: usize, j: usize) -> [[2]] {
        adv_dvec![v[i], v[j]]
    }
}
adv_fn! {
    fn v_comma(v: [[2]], i: usize,) -> [[1]] {
        adv_dvec![v[i]]
    }
}
adv_fn! {
    fn v_only_comma(v: [[2]],) -> [[2]] {
        v
    }
}
adv_fn! {
    fn v_owned(v: [[2]], w: Vec<usize>) -> [[1]] {
        let w: Vec<usize> = w;
        adv_dvec![v[w.len()]]
    }
}
adv_fn! {
    fn v_computed(v: [[1 + DIM]]) -> [[DIM * 2]] {
        adv_dvec![v[0], v[1], v[2], v[0]]
    }
}
adv_fn! {
    fn v_dims(v: [[n]], n: usize, m: usize) -> [[m + 1]] {
        DVector::from_element(m + 1, v[n - 1])
    }
}
adv_fn! {
    fn v_result(v: [[1]], k: usize) -> [[3]] {
        DVector::from_element(k, v[0])
    }
}
adv_fn! {
    fn v_return(v: [[2]], early: bool, k: usize) -> [[2]] {
        if early {
            return DVector::from_element(k, v[0]);
        }
        v
    }
}
adv_fn! {
    fn v_mut(v: [[2]]) -> [[2]] {
        let mut w = v;
        let x = w[0];
        w[0] = w[1];
        w[1] = x;
        w
    }
}
adv_fn! {
    fn v_real(v: [[1]], a: f64) -> [[2]] {
        adv_dvec![<Scalar as From<f64>>::from(a), v[0]]
    }
}
adv_fn! {
    fn c_one([[x]]) -> [[2]] {
        adv_dvec![x, x]
    }
}
adv_fn! {
    fn c_two([[x, y]], k: usize) -> [[2]] {
        if k > 0 {
            adv_dvec![y, x]
        } else {
            adv_dvec![x, y]
        }
    }
}
adv_fn! {
    fn c_three([[x1, x2, x3]]) -> [[3]] {
        adv_dvec![x3, x1, x2]
    }
}
adv_fn! {
    fn c_five([[a, b, c, d, e]], i: usize, w: Vec<usize>) -> [[5]] {
        let all = [a, b, c, d, e];
        adv_dvec![e, all[i], all[w.len()], b, a]
    }
}
adv_fn! {
    fn c_twelve([[x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11]]) -> [[12]] {
        adv_dvec![x11, x10, x9, x8, x7, x6, x5, x4, x3, x2, x1, x0]
    }
}
adv_fn! {
    /// attributes and documentation
    #[allow(unused_variables)]
    #[inline]
    pub fn c_attr([[x, y]], unused: f64) -> [[1]] {
        let nothing = 0;
        adv_dvec![y]
    }
}
adv_fn! {
    fn c_comma([[x, y]], k: usize,) -> [[1 + 1]] {
        DVector::from_element(k, if k > 1 { x } else { y })
    }
}
adv_fn! {
    fn c_dims([[x, y]], m: usize) -> [[m]] {
        let mut r = DVector::from_element(m, x);
        r[0] = y;
        r
    }
}
adv_fn! {
    fn c_result([[x, y, z]], k: usize) -> [[3]] {
        let _ = (y, z);
        DVector::from_element(k, x)
    }
}
adv_fn! {
    fn c_return([[x, y]], early: bool, k: usize) -> [[2]] {
        if early {
            return DVector::from_element(k, x);
        }
        adv_dvec![x, y]
    }
}

pub mod inner {
    use super::*;
    adv_fn! {
        pub fn p_vector(v: [[2]], i: usize) -> [[1]] {
            adv_dvec![v[i]]
        }
    }
    adv_fn! {
        pub fn p_component([[x, y]]) -> [[1]] {
            let _ = x;
            adv_dvec![y]
        }
    }
}
mod outer {
    use super::inner::*;
    use super::*;
    pub fn o_p_vector(i: usize) -> impl ROOT::Function { adv_fn_obj!(p_vector, i) }
    pub fn o_p_component() -> impl ROOT::Function { adv_fn_obj!(p_component) }
}
pub use outer::*;

pub fn o_v_plain() -> impl ROOT::Function { adv_fn_obj!(v_plain) }
pub fn o_v_attr(a: f64) -> impl ROOT::Function { adv_fn_obj!(v_attr, a) }
pub fn o_v_extra(i: usize, j: usize) -> impl ROOT::Function { adv_fn_obj!(v_extra, i, j) }
pub fn o_v_comma(i: usize) -> impl ROOT::Function { adv_fn_obj!(v_comma, i) }
pub fn o_v_only_comma() -> impl ROOT::Function { adv_fn_obj!(v_only_comma) }
pub fn o_v_owned(w: Vec<usize>) -> impl ROOT::Function { adv_fn_obj!(v_owned, w) }
pub fn o_v_computed() -> impl ROOT::Function { adv_fn_obj!(v_computed) }
pub fn o_v_dims(n: usize, m: usize) -> impl ROOT::Function { adv_fn_obj!(v_dims, n, m) }
pub fn o_v_result(k: usize) -> impl ROOT::Function { adv_fn_obj!(v_result, k) }
pub fn o_v_return(early: bool, k: usize) -> impl ROOT::Function { adv_fn_obj!(v_return, early, k) }
pub fn o_v_mut() -> impl ROOT::Function { adv_fn_obj!(v_mut) }
pub fn o_v_real(a: f64) -> impl ROOT::Function { adv_fn_obj!(v_real, a) }
pub fn o_c_one() -> impl ROOT::Function { adv_fn_obj!(c_one) }
pub fn o_c_two(k: usize) -> impl ROOT::Function { adv_fn_obj!(c_two, k) }
pub fn o_c_three() -> impl ROOT::Function { adv_fn_obj!(c_three) }
pub fn o_c_five(i: usize, w: Vec<usize>) -> impl ROOT::Function { adv_fn_obj!(c_five, i, w) }
pub fn o_c_twelve() -> impl ROOT::Function { adv_fn_obj!(c_twelve) }
pub fn o_c_attr(a: f64) -> impl ROOT::Function { adv_fn_obj!(c_attr, a) }
pub fn o_c_comma(k: usize) -> impl ROOT::Function { adv_fn_obj!(c_comma, k + 0) }
pub fn o_c_dims(m: usize) -> impl ROOT::Function { adv_fn_obj!(c_dims, m) }
pub fn o_c_result(k: usize) -> impl ROOT::Function { adv_fn_obj!(c_result, k) }
pub fn o_c_return(early: bool, k: usize) -> impl ROOT::Function { adv_fn_obj!(c_return, early, k) }

pub fn l_three(a: f64, b: f64, c: f64) -> DVector<f64> { adv_dvec![a, b, c] }
pub fn l_comma(a: f64, b: f64) -> DVector<f64> { adv_dvec![a, b,] }
pub fn l_one(a: f64) -> DVector<f64> { adv_dvec![a] }
pub fn l_none() -> DVector<f64> { adv_dvec![] }
pub fn l_seven(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64) -> DVector<f64> { adv_dvec![a, b, c, d, e, f, g] }
pub fn l_repeat(a: f64, n: usize) -> DVector<f64> { adv_dvec![a; n] }
pub fn l_parens(a: f64, b: f64) -> DVector<f64> { adv_dvec!(b, a) }
