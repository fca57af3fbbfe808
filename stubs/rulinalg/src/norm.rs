use num_traits::Float;
use crate::matrix::BaseMatrix;
use crate::vector::Vector;
use crate::utils;
use std::ops::Sub;

pub trait VectorNorm<T> { fn norm(&self, v: &Vector<T>) -> T; }
pub trait VectorMetric<T> { fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T; }
pub trait MatrixNorm<T, M: BaseMatrix<T>> { fn norm(&self, m: &M) -> T; }
pub trait MatrixMetric<'a, 'b, T, M1: 'a + BaseMatrix<T>, M2: 'b + BaseMatrix<T>> {
    fn metric(&self, m1: &'a M1, m2: &'b M2) -> T;
}
impl<U, T> VectorMetric<T> for U where U: VectorNorm<T>, T: Copy + Sub<T, Output = T> {
    fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T { self.norm(&(v1 - v2)) }
}
impl<'a, 'b, U, T, M1, M2> MatrixMetric<'a, 'b, T, M1, M2> for U
    where U: MatrixNorm<T, crate::matrix::Matrix<T>>, T: Copy + Sub<T, Output = T>,
          M1: 'a + BaseMatrix<T>, M2: 'b + BaseMatrix<T>
{
    fn metric(&self, m1: &'a M1, m2: &'b M2) -> T {
        let d: Vec<T> = m1.iter().zip(m2.iter()).map(|(a, b)| *a - *b).collect();
        self.norm(&crate::matrix::Matrix::new(m1.rows(), m1.cols(), d))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Euclidean;
impl<T: Float> VectorNorm<T> for Euclidean {
    fn norm(&self, v: &Vector<T>) -> T { utils::dot(v.data(), v.data()).sqrt() }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Euclidean {
    fn norm(&self, m: &M) -> T {
        let mut s = T::zero();
        for r in m.row_iter() { s = s + utils::dot(r.raw_slice(), r.raw_slice()); }
        s.sqrt()
    }
}
#[derive(Debug, Clone, Copy)]
pub enum Lp<T: Float> { Integer(i32), Float(T), Infinity }
fn lp<'a, T: Float + 'a, I: Iterator<Item = &'a T>>(l: &Lp<T>, it: I) -> T {
    match *l {
        Lp::Infinity => it.fold(T::neg_infinity(), |m, x| m.max(x.abs())),
        Lp::Integer(p) => {
            assert!(p >= 1, "p value in Lp norm must be >= 1");
            it.fold(T::zero(), |s, x| s + x.abs().powi(p)).powf(T::from(p).unwrap().recip())
        }
        Lp::Float(p) => {
            assert!(p >= T::one(), "p value in Lp norm must be >= 1");
            it.fold(T::zero(), |s, x| s + x.abs().powf(p)).powf(p.recip())
        }
    }
}
impl<T: Float> VectorNorm<T> for Lp<T> { fn norm(&self, v: &Vector<T>) -> T { lp(self, v.data().iter()) } }
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Lp<T> { fn norm(&self, m: &M) -> T { lp(self, m.iter()) } }
