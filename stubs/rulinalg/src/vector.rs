use num_traits::{Float, FromPrimitive, One, Zero};
use std::fmt;
use std::iter::FromIterator;
use std::ops::*;
use std::slice::{Iter, IterMut};
use std::vec::IntoIter;
use crate::error::{Error, ErrorKind};
use crate::norm::{VectorMetric, VectorNorm};
use crate::utils;

#[derive(Debug, PartialEq, Eq, Clone, Hash)]
pub struct Vector<T> { data: Vec<T> }

impl<T> Vector<T> {
    pub fn new<U: Into<Vec<T>>>(data: U) -> Vector<T> { Vector { data: data.into() } }
    pub fn from_fn<F: FnMut(usize) -> T>(size: usize, mut f: F) -> Vector<T> {
        Vector { data: (0..size).map(|i| f(i)).collect() }
    }
    pub fn size(&self) -> usize { self.data.len() }
    pub fn data(&self) -> &Vec<T> { &self.data }
    pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
    pub fn into_vec(self) -> Vec<T> { self.data }
    pub fn iter(&self) -> Iter<T> { self.data.iter() }
    pub fn iter_mut(&mut self) -> IterMut<T> { self.data.iter_mut() }
    pub unsafe fn get_unchecked(&self, index: usize) -> &T { self.data.get_unchecked(index) }
    pub unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut T { self.data.get_unchecked_mut(index) }
}
impl<T: Copy> Vector<T> {
    pub fn apply(mut self, f: &dyn Fn(T) -> T) -> Vector<T> {
        for v in &mut self.data { *v = f(*v); }
        self
    }
    pub fn select(&self, idxs: &[usize]) -> Vector<T> { Vector { data: idxs.iter().map(|i| self.data[*i]).collect() } }
}
impl<T: Copy + PartialOrd> Vector<T> {
    pub fn argmax(&self) -> (usize, T) { utils::argmax(&self.data) }
    pub fn argmin(&self) -> (usize, T) { utils::argmin(&self.data) }
}
impl<T: Clone + Zero> Vector<T> { pub fn zeros(size: usize) -> Vector<T> { Vector { data: vec![T::zero(); size] } } }
impl<T: Clone + One> Vector<T> { pub fn ones(size: usize) -> Vector<T> { Vector { data: vec![T::one(); size] } } }
impl<T: Copy + Zero + Mul<T, Output = T> + Add<T, Output = T>> Vector<T> {
    pub fn dot(&self, v: &Vector<T>) -> T { utils::dot(&self.data, &v.data) }
}
impl<T: Copy + Zero + Add<T, Output = T>> Vector<T> { pub fn sum(&self) -> T { utils::unrolled_sum(&self.data) } }
impl<T: Copy + Mul<T, Output = T>> Vector<T> {
    pub fn elemul(&self, v: &Vector<T>) -> Vector<T> { assert_eq!(self.size(), v.size()); Vector::new(utils::ele_mul(&self.data, &v.data)) }
}
impl<T: Copy + Div<T, Output = T>> Vector<T> {
    pub fn elediv(&self, v: &Vector<T>) -> Vector<T> { assert_eq!(self.size(), v.size()); Vector::new(utils::ele_div(&self.data, &v.data)) }
}
impl<T: Float> Vector<T> {
    pub fn norm<N: VectorNorm<T>>(&self, norm: N) -> T { norm.norm(self) }
    pub fn metric<M: VectorMetric<T>>(&self, v: &Vector<T>, m: M) -> T { m.metric(self, v) }
}
impl<T: Float + FromPrimitive> Vector<T> {
    pub fn mean(&self) -> T { self.sum() / FromPrimitive::from_usize(self.size()).unwrap() }
    pub fn variance(&self) -> Result<T, Error> {
        if self.size() < 2 { return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two elements in the vector.")); }
        let m = self.mean();
        let mut s = T::zero();
        for u in self.data.iter() { s = s + (*u - m) * (*u - m); }
        Ok(s / FromPrimitive::from_usize(self.size() - 1).unwrap())
    }
}
impl<T> Index<usize> for Vector<T> { type Output = T; fn index(&self, i: usize) -> &T { assert!(i < self.data.len()); &self.data[i] } }
impl<T> IndexMut<usize> for Vector<T> { fn index_mut(&mut self, i: usize) -> &mut T { assert!(i < self.data.len()); &mut self.data[i] } }
impl<T> IntoIterator for Vector<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { self.data.into_iter() } }
impl<'a, T> IntoIterator for &'a Vector<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.data.iter() } }
impl<'a, T> IntoIterator for &'a mut Vector<T> { type Item = &'a mut T; type IntoIter = IterMut<'a, T>; fn into_iter(self) -> IterMut<'a, T> { self.data.iter_mut() } }
impl<T> FromIterator<T> for Vector<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Vector { data: i.into_iter().collect() } } }
impl<T> From<Vec<T>> for Vector<T> { fn from(v: Vec<T>) -> Self { Vector { data: v } } }
impl<'a, T: Clone> From<&'a [T]> for Vector<T> { fn from(v: &'a [T]) -> Self { Vector { data: v.to_vec() } } }
impl<T> From<Vector<T>> for Vec<T> { fn from(v: Vector<T>) -> Self { v.data } }
impl<T> AsRef<[T]> for Vector<T> { fn as_ref(&self) -> &[T] { &self.data } }
impl<T> AsMut<[T]> for Vector<T> { fn as_mut(&mut self) -> &mut [T] { &mut self.data } }
impl<T: fmt::Display> fmt::Display for Vector<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "[")?;
        for (i, v) in self.data.iter().enumerate() { if i > 0 { write!(f, ", ")?; } write!(f, "{}", v)?; }
        write!(f, "]")
    }
}
macro_rules! vbin {
    ($tr:ident, $m:ident) => {
        impl<T: Copy + $tr<T, Output = T>> $tr<T> for Vector<T> { type Output = Vector<T>;
            fn $m(mut self, f: T) -> Vector<T> { for v in &mut self.data { *v = (*v).$m(f); } self } }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<T> for &'a Vector<T> { type Output = Vector<T>;
            fn $m(self, f: T) -> Vector<T> { Vector { data: self.data.iter().map(|v| (*v).$m(f)).collect() } } }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<&'a T> for Vector<T> { type Output = Vector<T>;
            fn $m(self, f: &T) -> Vector<T> { self.$m(*f) } }
        impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'b T> for &'a Vector<T> { type Output = Vector<T>;
            fn $m(self, f: &T) -> Vector<T> { self.$m(*f) } }
    };
}
macro_rules! vvbin {
    ($tr:ident, $m:ident) => {
        impl<T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for Vector<T> { type Output = Vector<T>;
            fn $m(self, f: Vector<T>) -> Vector<T> { (&self).$m(&f) } }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<&'a Vector<T>> for Vector<T> { type Output = Vector<T>;
            fn $m(self, f: &Vector<T>) -> Vector<T> { (&self).$m(f) } }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for &'a Vector<T> { type Output = Vector<T>;
            fn $m(self, f: Vector<T>) -> Vector<T> { self.$m(&f) } }
        impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'b Vector<T>> for &'a Vector<T> { type Output = Vector<T>;
            fn $m(self, f: &Vector<T>) -> Vector<T> { assert_eq!(self.size(), f.size());
                Vector { data: self.data.iter().zip(f.data.iter()).map(|(a, b)| (*a).$m(*b)).collect() } } }
    };
}
vbin!(Mul, mul); vbin!(Div, div); vbin!(Add, add); vbin!(Sub, sub); vbin!(Rem, rem);
vvbin!(Add, add); vvbin!(Sub, sub);
impl<T: Copy + Neg<Output = T>> Neg for Vector<T> { type Output = Vector<T>; fn neg(mut self) -> Vector<T> { for v in &mut self.data { *v = -*v; } self } }
impl<'a, T: Copy + Neg<Output = T>> Neg for &'a Vector<T> { type Output = Vector<T>; fn neg(self) -> Vector<T> { Vector { data: self.data.iter().map(|v| -*v).collect() } } }
macro_rules! vass {
    ($tr:ident, $m:ident, $b:ident, $bm:ident) => {
        impl<T: Copy + $b<T, Output = T>> $tr<T> for Vector<T> { fn $m(&mut self, f: T) { for v in &mut self.data { *v = (*v).$bm(f); } } }
        impl<'a, T: Copy + $b<T, Output = T>> $tr<&'a T> for Vector<T> { fn $m(&mut self, f: &T) { for v in &mut self.data { *v = (*v).$bm(*f); } } }
    };
}
macro_rules! vvass {
    ($tr:ident, $m:ident, $b:ident, $bm:ident) => {
        impl<T: Copy + $b<T, Output = T>> $tr<Vector<T>> for Vector<T> { fn $m(&mut self, f: Vector<T>) { assert_eq!(self.size(), f.size()); for (v, w) in self.data.iter_mut().zip(f.data.iter()) { *v = (*v).$bm(*w); } } }
        impl<'a, T: Copy + $b<T, Output = T>> $tr<&'a Vector<T>> for Vector<T> { fn $m(&mut self, f: &Vector<T>) { assert_eq!(self.size(), f.size()); for (v, w) in self.data.iter_mut().zip(f.data.iter()) { *v = (*v).$bm(*w); } } }
    };
}
vass!(AddAssign, add_assign, Add, add); vass!(SubAssign, sub_assign, Sub, sub);
vass!(MulAssign, mul_assign, Mul, mul); vass!(DivAssign, div_assign, Div, div);
vvass!(AddAssign, add_assign, Add, add); vvass!(SubAssign, sub_assign, Sub, sub);
impl<'a, T: Copy + Zero + Add<T, Output = T>> std::iter::Sum<T> for Vector<T> { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.collect() } }
