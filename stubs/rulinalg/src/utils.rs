use num_traits::{Num, Zero};
use std::ops::{Add, Mul, Sub, Div};

pub fn dot<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>>(u: &[T], v: &[T]) -> T {
    debug_assert_eq!(u.len(), v.len());
    let mut s = T::zero();
    for (a, b) in u.iter().zip(v.iter()) { s = s + *a * *b; }
    s
}
pub fn unrolled_sum<T: Copy + Zero + Add<T, Output = T>>(xs: &[T]) -> T {
    let mut s = T::zero();
    for x in xs { s = s + *x; }
    s
}
pub fn in_place_vec_bin_op<F, T: Copy>(u: &mut [T], v: &[T], mut f: F) where F: FnMut(&mut T, &T) {
    debug_assert_eq!(u.len(), v.len());
    for (a, b) in u.iter_mut().zip(v.iter()) { f(a, b); }
}
pub fn vec_bin_op<F, T: Copy>(u: &[T], v: &[T], f: F) -> Vec<T> where F: Fn(T, T) -> T {
    debug_assert_eq!(u.len(), v.len());
    u.iter().zip(v.iter()).map(|(a, b)| f(*a, *b)).collect()
}
pub fn vec_sum<T: Copy + Add<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x + y) }
pub fn vec_sub<T: Copy + Sub<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x - y) }
pub fn ele_mul<T: Copy + Mul<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x * y) }
pub fn ele_div<T: Copy + Div<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x / y) }
pub fn argmax<T: Copy + PartialOrd>(u: &[T]) -> (usize, T) {
    assert!(u.len() != 0);
    let mut i = 0; let mut m = u[0];
    for (k, v) in u.iter().enumerate().skip(1) { if m < *v { i = k; m = *v; } }
    (i, m)
}
pub fn argmin<T: Copy + PartialOrd>(u: &[T]) -> (usize, T) {
    assert!(u.len() != 0);
    let mut i = 0; let mut m = u[0];
    for (k, v) in u.iter().enumerate().skip(1) { if m > *v { i = k; m = *v; } }
    (i, m)
}
pub fn find<T: PartialEq>(p: &[T], u: T) -> usize {
    for (i, v) in p.iter().enumerate() { if *v == u { return i; } }
    panic!("Value not found.")
}
#[allow(dead_code)]
fn _unused<T: Num>() {}
