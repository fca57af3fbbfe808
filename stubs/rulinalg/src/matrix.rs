use num_traits::{Float, FromPrimitive, One, Signed, Zero};
use std::any::Any;
use std::fmt;
use std::iter::FromIterator;
use std::marker::PhantomData;
use std::ops::*;
use crate::error::{Error, ErrorKind};
use crate::norm::{MatrixMetric, MatrixNorm};
use crate::vector::Vector;
use crate::utils;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Axes { Row, Col }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DiagOffset { Main, Above(usize), Below(usize) }

#[derive(Debug, PartialEq, Eq, Hash, Clone)]
pub struct Matrix<T> { rows: usize, cols: usize, data: Vec<T> }
#[derive(Debug)]
pub struct MatrixSlice<'a, T: 'a> { ptr: *const T, rows: usize, cols: usize, row_stride: usize, marker: PhantomData<&'a T> }
#[derive(Debug)]
pub struct MatrixSliceMut<'a, T: 'a> { ptr: *mut T, rows: usize, cols: usize, row_stride: usize, marker: PhantomData<&'a mut T> }
impl<'a, T> Clone for MatrixSlice<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T> Copy for MatrixSlice<'a, T> {}
#[derive(Debug)]
pub struct Row<'a, T: 'a> { row: MatrixSlice<'a, T> }
#[derive(Debug)]
pub struct RowMut<'a, T: 'a> { row: MatrixSliceMut<'a, T> }
#[derive(Debug)]
pub struct Column<'a, T: 'a> { col: MatrixSlice<'a, T> }
#[derive(Debug)]
pub struct ColumnMut<'a, T: 'a> { col: MatrixSliceMut<'a, T> }

impl<'a, T: 'a> Row<'a, T> { pub fn raw_slice(&self) -> &'a [T] { unsafe { std::slice::from_raw_parts(self.row.ptr, self.row.cols) } } }
impl<'a, T: 'a> RowMut<'a, T> {
    pub fn raw_slice(&self) -> &'a [T] { unsafe { std::slice::from_raw_parts(self.row.ptr, self.row.cols) } }
    pub fn raw_slice_mut(&mut self) -> &'a mut [T] { unsafe { std::slice::from_raw_parts_mut(self.row.ptr, self.row.cols) } }
}
impl<'a, T> Deref for Row<'a, T> { type Target = MatrixSlice<'a, T>; fn deref(&self) -> &MatrixSlice<'a, T> { &self.row } }
impl<'a, T> Deref for RowMut<'a, T> { type Target = MatrixSliceMut<'a, T>; fn deref(&self) -> &MatrixSliceMut<'a, T> { &self.row } }
impl<'a, T> DerefMut for RowMut<'a, T> { fn deref_mut(&mut self) -> &mut MatrixSliceMut<'a, T> { &mut self.row } }
impl<'a, T> Deref for Column<'a, T> { type Target = MatrixSlice<'a, T>; fn deref(&self) -> &MatrixSlice<'a, T> { &self.col } }
impl<'a, T> Deref for ColumnMut<'a, T> { type Target = MatrixSliceMut<'a, T>; fn deref(&self) -> &MatrixSliceMut<'a, T> { &self.col } }
impl<'a, T> DerefMut for ColumnMut<'a, T> { fn deref_mut(&mut self) -> &mut MatrixSliceMut<'a, T> { &mut self.col } }
impl<'a, T> Index<usize> for Row<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.raw_slice()[i] } }
impl<'a, T> Index<usize> for RowMut<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.raw_slice()[i] } }
impl<'a, T> IndexMut<usize> for RowMut<'a, T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.raw_slice_mut()[i] } }
impl<'a, T> Index<usize> for Column<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.col[[i, 0]] } }
impl<'a, T> Index<usize> for ColumnMut<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.col[[i, 0]] } }
impl<'a, T> IndexMut<usize> for ColumnMut<'a, T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.col[[i, 0]] } }
impl<'a, T: 'a> IntoIterator for Row<'a, T> { type Item = &'a T; type IntoIter = SliceIter<'a, T>; fn into_iter(self) -> SliceIter<'a, T> { slice_iter(&self.row) } }

macro_rules! pos_iter {
    ($name:ident, $item:ty, $slice:ident, $ptr:ty) => {
        #[derive(Debug)]
        pub struct $name<'a, T: 'a> { ptr: $ptr, pos: usize, end: usize, cols: usize, rows: usize, stride: usize, m: PhantomData<&'a T> }
        impl<'a, T> ExactSizeIterator for $name<'a, T> {}
    };
}
pos_iter!(Rows, Row<'a, T>, MatrixSlice, *const T);
pos_iter!(RowsMut, RowMut<'a, T>, MatrixSliceMut, *mut T);
pos_iter!(Cols, Column<'a, T>, MatrixSlice, *const T);
pos_iter!(ColsMut, ColumnMut<'a, T>, MatrixSliceMut, *mut T);
pos_iter!(SliceIter, &'a T, MatrixSlice, *const T);
pos_iter!(SliceIterMut, &'a mut T, MatrixSliceMut, *mut T);
pos_iter!(Diagonal, &'a T, MatrixSlice, *const T);
pos_iter!(DiagonalMut, &'a mut T, MatrixSliceMut, *mut T);
macro_rules! imp_iter {
    ($name:ident, $item:ty, |$s:ident, $i:ident| $e:expr) => {
        impl<'a, T: 'a> $name<'a, T> { fn at(&self, $i: usize) -> $item { let $s = self; $e } }
        impl<'a, T: 'a> Iterator for $name<'a, T> { type Item = $item;
            fn next(&mut self) -> Option<$item> { if self.pos >= self.end { None } else { let i = self.pos; self.pos += 1; Some(self.at(i)) } }
            fn size_hint(&self) -> (usize, Option<usize>) { (self.end - self.pos, Some(self.end - self.pos)) } }
        impl<'a, T: 'a> DoubleEndedIterator for $name<'a, T> {
            fn next_back(&mut self) -> Option<$item> { if self.pos >= self.end { None } else { self.end -= 1; Some(self.at(self.end)) } } }
    };
}
imp_iter!(Rows, Row<'a, T>, |s, i| Row { row: MatrixSlice { ptr: s.ptr.wrapping_add(i * s.stride), rows: 1, cols: s.cols, row_stride: s.stride, marker: PhantomData } });
imp_iter!(RowsMut, RowMut<'a, T>, |s, i| RowMut { row: MatrixSliceMut { ptr: s.ptr.wrapping_add(i * s.stride), rows: 1, cols: s.cols, row_stride: s.stride, marker: PhantomData } });
imp_iter!(Cols, Column<'a, T>, |s, i| Column { col: MatrixSlice { ptr: s.ptr.wrapping_add(i), rows: s.rows, cols: 1, row_stride: s.stride, marker: PhantomData } });
imp_iter!(ColsMut, ColumnMut<'a, T>, |s, i| ColumnMut { col: MatrixSliceMut { ptr: s.ptr.wrapping_add(i), rows: s.rows, cols: 1, row_stride: s.stride, marker: PhantomData } });
imp_iter!(SliceIter, &'a T, |s, i| unsafe { &*s.ptr.add((i / s.cols) * s.stride + i % s.cols) });
imp_iter!(SliceIterMut, &'a mut T, |s, i| unsafe { &mut *s.ptr.add((i / s.cols) * s.stride + i % s.cols) });
imp_iter!(Diagonal, &'a T, |s, i| unsafe { &*s.ptr.add(i * (s.stride + 1)) });
imp_iter!(DiagonalMut, &'a mut T, |s, i| unsafe { &mut *s.ptr.add(i * (s.stride + 1)) });
impl<'a, T: 'a> Clone for Rows<'a, T> { fn clone(&self) -> Self { Rows { ..*self } } }
impl<'a, T: 'a> Clone for SliceIter<'a, T> { fn clone(&self) -> Self { SliceIter { ..*self } } }
fn slice_iter<'a, T>(s: &MatrixSlice<'a, T>) -> SliceIter<'a, T> {
    SliceIter { ptr: s.ptr, pos: 0, end: s.rows * s.cols, cols: s.cols, rows: s.rows, stride: s.row_stride, m: PhantomData }
}

pub trait BaseMatrix<T>: Sized {
    fn rows(&self) -> usize;
    fn cols(&self) -> usize;
    fn row_stride(&self) -> usize;
    fn as_ptr(&self) -> *const T;
    fn is_empty(&self) -> bool { self.rows() == 0 || self.cols() == 0 }
    fn as_slice(&self) -> MatrixSlice<T> {
        MatrixSlice { ptr: self.as_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData }
    }
    unsafe fn get_unchecked(&self, index: [usize; 2]) -> &T { &*self.as_ptr().add(index[0] * self.row_stride() + index[1]) }
    fn get(&self, index: [usize; 2]) -> Option<&T> {
        if index[0] >= self.rows() || index[1] >= self.cols() { None } else { unsafe { Some(self.get_unchecked(index)) } }
    }
    fn row(&self, index: usize) -> Row<T> { assert!(index < self.rows(), "Row index out of bounds"); unsafe { self.row_unchecked(index) } }
    unsafe fn row_unchecked(&self, index: usize) -> Row<T> {
        Row { row: MatrixSlice { ptr: self.as_ptr().wrapping_add(index * self.row_stride()), rows: 1, cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData } }
    }
    fn col(&self, index: usize) -> Column<T> { assert!(index < self.cols(), "Column index out of bounds"); unsafe { self.col_unchecked(index) } }
    unsafe fn col_unchecked(&self, index: usize) -> Column<T> {
        Column { col: MatrixSlice { ptr: self.as_ptr().wrapping_add(index), rows: self.rows(), cols: 1, row_stride: self.row_stride(), marker: PhantomData } }
    }
    fn iter<'a>(&self) -> SliceIter<'a, T> where T: 'a {
        SliceIter { ptr: self.as_ptr(), pos: 0, end: self.rows() * self.cols(), cols: self.cols(), rows: self.rows(), stride: self.row_stride(), m: PhantomData }
    }
    fn row_iter(&self) -> Rows<T> {
        Rows { ptr: self.as_ptr(), pos: 0, end: self.rows(), cols: self.cols(), rows: self.rows(), stride: self.row_stride(), m: PhantomData }
    }
    fn iter_rows(&self) -> Rows<T> { self.row_iter() }
    fn col_iter(&self) -> Cols<T> {
        Cols { ptr: self.as_ptr(), pos: 0, end: self.cols(), cols: self.cols(), rows: self.rows(), stride: self.row_stride(), m: PhantomData }
    }
    fn diag_iter(&self, k: DiagOffset) -> Diagonal<T> {
        let (r0, c0) = match k { DiagOffset::Main => (0, 0), DiagOffset::Above(m) => (0, m), DiagOffset::Below(m) => (m, 0) };
        assert!(r0 <= self.rows() && c0 <= self.cols());
        let n = ::std::cmp::min(self.rows() - r0, self.cols() - c0);
        Diagonal { ptr: self.as_ptr().wrapping_add(r0 * self.row_stride() + c0), pos: 0, end: n, cols: 1, rows: 1, stride: self.row_stride(), m: PhantomData }
    }
    fn sum_rows(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> {
        let mut r = Vector::zeros(self.cols());
        for row in self.row_iter() { for (a, b) in r.mut_data().iter_mut().zip(row.raw_slice()) { *a = *a + *b; } }
        r
    }
    fn sum_cols(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> {
        Vector::new(self.row_iter().map(|r| utils::unrolled_sum(r.raw_slice())).collect::<Vec<T>>())
    }
    fn sum(&self) -> T where T: Copy + Zero + Add<T, Output = T> { self.iter().fold(T::zero(), |s, x| s + *x) }
    fn min(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd {
        match axis {
            Axes::Col => Vector::new(self.row_iter().map(|r| utils::argmin(r.raw_slice()).1).collect::<Vec<T>>()),
            Axes::Row => Vector::new(self.col_iter().map(|c| c.iter().fold(c[0], |m, x| if *x < m { *x } else { m })).collect::<Vec<T>>()),
        }
    }
    fn max(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd {
        match axis {
            Axes::Col => Vector::new(self.row_iter().map(|r| utils::argmax(r.raw_slice()).1).collect::<Vec<T>>()),
            Axes::Row => Vector::new(self.col_iter().map(|c| c.iter().fold(c[0], |m, x| if *x > m { *x } else { m })).collect::<Vec<T>>()),
        }
    }
    fn norm<N: MatrixNorm<T, Self>>(&self, norm: N) -> T where T: Float { norm.norm(self) }
    fn metric<'a, 'b, B, M>(&'a self, mat: &'b B, metric: M) -> T where B: 'b + BaseMatrix<T>, M: MatrixMetric<'a, 'b, T, Self, B> { metric.metric(self, mat) }
    fn into_matrix(self) -> Matrix<T> where T: Copy { Matrix::new(self.rows(), self.cols(), self.iter().cloned().collect::<Vec<T>>()) }
    fn select_rows<'a, I>(&self, rows: I) -> Matrix<T> where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone {
        let it = rows.into_iter();
        let n = it.len();
        let mut d = Vec::with_capacity(n * self.cols());
        for r in it { d.extend_from_slice(self.row(*r).raw_slice()); }
        Matrix::new(n, self.cols(), d)
    }
    fn select_cols<'a, I>(&self, cols: I) -> Matrix<T> where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone {
        let it = cols.into_iter();
        let n = it.len();
        let mut d = Vec::with_capacity(n * self.rows());
        for r in self.row_iter() { for c in it.clone() { d.push(r.raw_slice()[*c]); } }
        Matrix::new(self.rows(), n, d)
    }
    fn select(&self, rows: &[usize], cols: &[usize]) -> Matrix<T> where T: Copy {
        let mut d = Vec::new();
        for r in rows { for c in cols { d.push(*self.get([*r, *c]).unwrap()); } }
        Matrix::new(rows.len(), cols.len(), d)
    }
    fn elemul(&self, m: &Self) -> Matrix<T> where T: Copy + Mul<T, Output = T> {
        assert!(self.rows() == m.rows() && self.cols() == m.cols());
        Matrix::new(self.rows(), self.cols(), self.iter().zip(m.iter()).map(|(a, b)| *a * *b).collect::<Vec<T>>())
    }
    fn elediv(&self, m: &Self) -> Matrix<T> where T: Copy + Div<T, Output = T> {
        assert!(self.rows() == m.rows() && self.cols() == m.cols());
        Matrix::new(self.rows(), self.cols(), self.iter().zip(m.iter()).map(|(a, b)| *a / *b).collect::<Vec<T>>())
    }
    fn vcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T> where T: Copy {
        assert!(self.cols() == m.cols());
        Matrix::new(self.rows() + m.rows(), self.cols(), self.iter().chain(m.iter()).cloned().collect::<Vec<T>>())
    }
    fn hcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T> where T: Copy {
        assert!(self.rows() == m.rows());
        let mut d = Vec::new();
        for (a, b) in self.row_iter().zip(m.row_iter()) { d.extend_from_slice(a.raw_slice()); d.extend_from_slice(b.raw_slice()); }
        Matrix::new(self.rows(), self.cols() + m.cols(), d)
    }
    fn diag(&self) -> Diagonal<T> { self.diag_iter(DiagOffset::Main) }
    fn transpose(&self) -> Matrix<T> where T: Copy {
        let mut d = Vec::with_capacity(self.rows() * self.cols());
        for j in 0..self.cols() { for i in 0..self.rows() { d.push(unsafe { *self.get_unchecked([i, j]) }); } }
        Matrix::new(self.cols(), self.rows(), d)
    }
    fn is_diag(&self) -> bool where T: Zero + PartialEq {
        for i in 0..self.rows() { for j in 0..self.cols() { if i != j && *self.get([i, j]).unwrap() != T::zero() { return false; } } }
        true
    }
    fn solve_u_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Any + Float {
        assert!(self.cols() == y.size());
        let n = y.size();
        let mut x = y.into_vec();
        for i in (0..n).rev() {
            let d = *self.get([i, i]).unwrap();
            if d.abs() < T::min_positive_value() + T::min_positive_value() { return Err(Error::new(ErrorKind::DivByZero, "Linear system cannot be solved (matrix is singular).")); }
            let mut s = x[i];
            for j in i + 1..n { s = s - *self.get([i, j]).unwrap() * x[j]; }
            x[i] = s / d;
        }
        Ok(Vector::new(x))
    }
    fn solve_l_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Any + Float {
        assert!(self.cols() == y.size());
        let n = y.size();
        let mut x = y.into_vec();
        for i in 0..n {
            let d = *self.get([i, i]).unwrap();
            if d.abs() < T::min_positive_value() + T::min_positive_value() { return Err(Error::new(ErrorKind::DivByZero, "Linear system cannot be solved (matrix is singular).")); }
            let mut s = x[i];
            for j in 0..i { s = s - *self.get([i, j]).unwrap() * x[j]; }
            x[i] = s / d;
        }
        Ok(Vector::new(x))
    }
    fn split_at(&self, mid: usize, axis: Axes) -> (MatrixSlice<T>, MatrixSlice<T>) {
        match axis {
            Axes::Row => { assert!(mid < self.rows()); (self.sub_slice([0, 0], mid, self.cols()), self.sub_slice([mid, 0], self.rows() - mid, self.cols())) }
            Axes::Col => { assert!(mid < self.cols()); (self.sub_slice([0, 0], self.rows(), mid), self.sub_slice([0, mid], self.rows(), self.cols() - mid)) }
        }
    }
    fn sub_slice<'a>(&self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> where T: 'a {
        assert!(start[0] + rows <= self.rows() && start[1] + cols <= self.cols(), "View dimensions exceed matrix dimensions.");
        MatrixSlice { ptr: self.as_ptr().wrapping_add(start[0] * self.row_stride() + start[1]), rows, cols, row_stride: self.row_stride(), marker: PhantomData }
    }
}
pub trait BaseMatrixMut<T>: BaseMatrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T;
    fn as_mut_slice(&mut self) -> MatrixSliceMut<T> {
        MatrixSliceMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData }
    }
    unsafe fn get_unchecked_mut(&mut self, index: [usize; 2]) -> &mut T { let s = self.row_stride(); &mut *self.as_mut_ptr().add(index[0] * s + index[1]) }
    fn get_mut(&mut self, index: [usize; 2]) -> Option<&mut T> {
        if index[0] >= self.rows() || index[1] >= self.cols() { None } else { unsafe { Some(self.get_unchecked_mut(index)) } }
    }
    fn iter_mut<'a>(&mut self) -> SliceIterMut<'a, T> where T: 'a {
        SliceIterMut { pos: 0, end: self.rows() * self.cols(), cols: self.cols(), rows: self.rows(), stride: self.row_stride(), ptr: self.as_mut_ptr(), m: PhantomData }
    }
    fn row_mut(&mut self, index: usize) -> RowMut<T> { assert!(index < self.rows(), "Row index out of bounds"); unsafe { self.row_unchecked_mut(index) } }
    unsafe fn row_unchecked_mut(&mut self, index: usize) -> RowMut<T> {
        let (c, s) = (self.cols(), self.row_stride());
        RowMut { row: MatrixSliceMut { ptr: self.as_mut_ptr().wrapping_add(index * s), rows: 1, cols: c, row_stride: s, marker: PhantomData } }
    }
    fn col_mut(&mut self, index: usize) -> ColumnMut<T> { assert!(index < self.cols(), "Column index out of bounds"); unsafe { self.col_unchecked_mut(index) } }
    unsafe fn col_unchecked_mut(&mut self, index: usize) -> ColumnMut<T> {
        let (r, s) = (self.rows(), self.row_stride());
        ColumnMut { col: MatrixSliceMut { ptr: self.as_mut_ptr().wrapping_add(index), rows: r, cols: 1, row_stride: s, marker: PhantomData } }
    }
    fn row_iter_mut(&mut self) -> RowsMut<T> {
        RowsMut { pos: 0, end: self.rows(), cols: self.cols(), rows: self.rows(), stride: self.row_stride(), ptr: self.as_mut_ptr(), m: PhantomData }
    }
    fn col_iter_mut(&mut self) -> ColsMut<T> {
        ColsMut { pos: 0, end: self.cols(), cols: self.cols(), rows: self.rows(), stride: self.row_stride(), ptr: self.as_mut_ptr(), m: PhantomData }
    }
    fn diag_iter_mut(&mut self, k: DiagOffset) -> DiagonalMut<T> {
        let (r0, c0) = match k { DiagOffset::Main => (0, 0), DiagOffset::Above(m) => (0, m), DiagOffset::Below(m) => (m, 0) };
        assert!(r0 <= self.rows() && c0 <= self.cols());
        let n = ::std::cmp::min(self.rows() - r0, self.cols() - c0);
        let s = self.row_stride();
        DiagonalMut { ptr: self.as_mut_ptr().wrapping_add(r0 * s + c0), pos: 0, end: n, cols: 1, rows: 1, stride: s, m: PhantomData }
    }
    fn swap_rows(&mut self, a: usize, b: usize) {
        assert!(a < self.rows() && b < self.rows(), "Row index larger than row count");
        if a != b { unsafe { for j in 0..self.cols() { let s = self.row_stride(); let p = self.as_mut_ptr(); std::ptr::swap(p.add(a * s + j), p.add(b * s + j)); } } }
    }
    fn swap_cols(&mut self, a: usize, b: usize) {
        assert!(a < self.cols() && b < self.cols(), "Col index larger than col count");
        if a != b { unsafe { for i in 0..self.rows() { let s = self.row_stride(); let p = self.as_mut_ptr(); std::ptr::swap(p.add(i * s + a), p.add(i * s + b)); } } }
    }
    fn set_to<M: BaseMatrix<T>>(mut self, target: M) where T: Copy {
        for (a, b) in self.iter_mut().zip(target.iter()) { *a = *b; }
    }
    fn apply(mut self, f: &dyn Fn(T) -> T) -> Self where T: Copy {
        for v in self.iter_mut() { *v = f(*v); }
        self
    }
    fn split_at_mut(&mut self, mid: usize, axis: Axes) -> (MatrixSliceMut<T>, MatrixSliceMut<T>) {
        let (r, c, s, p) = (self.rows(), self.cols(), self.row_stride(), self.as_mut_ptr());
        let mk = |o: usize, rows, cols| MatrixSliceMut { ptr: p.wrapping_add(o), rows, cols, row_stride: s, marker: PhantomData };
        match axis {
            Axes::Row => { assert!(mid < r); (mk(0, mid, c), mk(mid * s, r - mid, c)) }
            Axes::Col => { assert!(mid < c); (mk(0, r, mid), mk(mid, r, c - mid)) }
        }
    }
    fn sub_slice_mut<'a>(&mut self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> where T: 'a {
        assert!(start[0] + rows <= self.rows() && start[1] + cols <= self.cols(), "View dimensions exceed matrix dimensions.");
        let s = self.row_stride();
        MatrixSliceMut { ptr: self.as_mut_ptr().wrapping_add(start[0] * s + start[1]), rows, cols, row_stride: s, marker: PhantomData }
    }
}
impl<T> BaseMatrix<T> for Matrix<T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.cols }
    fn as_ptr(&self) -> *const T { self.data.as_ptr() }
    fn into_matrix(self) -> Matrix<T> where T: Copy { self }
}
impl<'a, T> BaseMatrix<T> for MatrixSlice<'a, T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.row_stride }
    fn as_ptr(&self) -> *const T { self.ptr }
}
impl<'a, T> BaseMatrix<T> for MatrixSliceMut<'a, T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.row_stride }
    fn as_ptr(&self) -> *const T { self.ptr as *const T }
}
impl<T> BaseMatrixMut<T> for Matrix<T> { fn as_mut_ptr(&mut self) -> *mut T { self.data.as_mut_ptr() } }
impl<'a, T> BaseMatrixMut<T> for MatrixSliceMut<'a, T> { fn as_mut_ptr(&mut self) -> *mut T { self.ptr } }

impl<'a, T> MatrixSlice<'a, T> {
    pub fn from_matrix(mat: &'a Matrix<T>, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> { mat.sub_slice(start, rows, cols) }
    pub unsafe fn from_raw_parts(ptr: *const T, rows: usize, cols: usize, row_stride: usize) -> MatrixSlice<'a, T> {
        MatrixSlice { ptr, rows, cols, row_stride, marker: PhantomData }
    }
}
impl<'a, T> MatrixSliceMut<'a, T> {
    pub fn from_matrix(mat: &'a mut Matrix<T>, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> { mat.sub_slice_mut(start, rows, cols) }
    pub unsafe fn from_raw_parts(ptr: *mut T, rows: usize, cols: usize, row_stride: usize) -> MatrixSliceMut<'a, T> {
        MatrixSliceMut { ptr, rows, cols, row_stride, marker: PhantomData }
    }
}
impl<T> Matrix<T> {
    pub fn new<U: Into<Vec<T>>>(rows: usize, cols: usize, data: U) -> Matrix<T> {
        let data = data.into();
        assert!(cols * rows == data.len(), "Data does not match given dimensions.");
        Matrix { rows, cols, data }
    }
    pub fn from_fn<F: FnMut(usize, usize) -> T>(rows: usize, cols: usize, mut f: F) -> Matrix<T> {
        let mut data = Vec::with_capacity(rows * cols);
        for i in 0..rows { for j in 0..cols { data.push(f(j, i)); } }
        Matrix { rows, cols, data }
    }
    pub fn data(&self) -> &Vec<T> { &self.data }
    pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
    pub fn into_vec(self) -> Vec<T> { self.data }
}
impl<T: Clone + Zero> Matrix<T> {
    pub fn zeros(rows: usize, cols: usize) -> Matrix<T> { Matrix { rows, cols, data: vec![T::zero(); rows * cols] } }
    pub fn from_diag(diag: &[T]) -> Matrix<T> {
        let n = diag.len();
        let mut m = Matrix::zeros(n, n);
        for i in 0..n { m.data[i * n + i] = diag[i].clone(); }
        m
    }
}
impl<T: Clone + One> Matrix<T> { pub fn ones(rows: usize, cols: usize) -> Matrix<T> { Matrix { rows, cols, data: vec![T::one(); rows * cols] } } }
impl<T: Clone + Zero + One> Matrix<T> {
    pub fn identity(size: usize) -> Matrix<T> {
        let mut m = Matrix::zeros(size, size);
        for i in 0..size { m.data[i * size + i] = T::one(); }
        m
    }
}
impl<T: Float + FromPrimitive> Matrix<T> {
    pub fn mean(&self, axis: Axes) -> Vector<T> {
        match axis {
            Axes::Row => { let n: T = FromPrimitive::from_usize(self.rows).unwrap(); self.sum_rows() / n },
            Axes::Col => { let n: T = FromPrimitive::from_usize(self.cols).unwrap(); self.sum_cols() / n },
        }
    }
    pub fn variance(&self, axis: Axes) -> Result<Vector<T>, Error> {
        let mean = self.mean(axis);
        let (n, m) = match axis { Axes::Row => (self.rows, self.cols), Axes::Col => (self.cols, self.rows) };
        if n < 2 { return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two rows or columns in the working axis.")); }
        let mut v: Vector<T> = Vector::zeros(m);
        for i in 0..n { for j in 0..m {
            let x = match axis { Axes::Row => self[[i, j]], Axes::Col => self[[j, i]] };
            v[j] = v[j] + (x - mean[j]) * (x - mean[j]);
        } }
        { let k: T = FromPrimitive::from_usize(n - 1).unwrap(); Ok(v / k) }
    }
}
impl<T: Any + Float> Matrix<T> {
    pub fn solve(self, y: Vector<T>) -> Result<Vector<T>, Error> { decomposition::PartialPivLu::decompose(self)?.solve(y) }
    pub fn inverse(self) -> Result<Matrix<T>, Error> {
        assert!(self.rows == self.cols, "Matrix is not square.");
        if self.rows == 0 { return Ok(self); }
        decomposition::PartialPivLu::decompose(self)?.inverse()
    }
    pub fn det(self) -> T {
        assert!(self.rows == self.cols, "Matrix is not square.");
        if self.rows == 0 { return T::one(); }
        match decomposition::PartialPivLu::decompose(self) { Ok(lu) => lu.det(), Err(_) => T::zero() }
    }
    pub fn cholesky(&self) -> Result<Matrix<T>, Error> where T: 'static { let c = decomposition::Cholesky::decompose(Matrix::new(self.rows, self.cols, self.data.clone()))?; use self::decomposition::Decomposition; Ok(c.unpack()) }
    pub fn lup_decomp(self) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> {
        use self::decomposition::Decomposition;
        let n = self.rows;
        let lup = decomposition::PartialPivLu::decompose(self)?.unpack();
        let _ = n;
        Ok((lup.l, lup.u, lup.p.as_matrix()))
    }
    pub fn qr_decomp(self) -> Result<(Matrix<T>, Matrix<T>), Error> {
        use self::decomposition::Decomposition;
        let qr = decomposition::HouseholderQr::decompose(self).unpack();
        Ok((qr.q, qr.r))
    }
    /// (sigma, u, v), singular values in descending order.
    pub fn svd(self) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> {
        let flip = self.cols > self.rows;
        let a = if flip { self.transpose() } else { self };
        let (m, n) = (a.rows, a.cols);
        let mut u = a; // m x n, columns get orthogonalised (one-sided Jacobi)
        let mut v = Matrix::<T>::identity(n);
        for _ in 0..60 {
            let mut rotated = false;
            for p in 0..n { for q in p + 1..n {
                let (mut al, mut be, mut ga) = (T::zero(), T::zero(), T::zero());
                for i in 0..m { let (x, y) = (u[[i, p]], u[[i, q]]); al = al + x * x; be = be + y * y; ga = ga + x * y; }
                if ga == T::zero() || ga.abs() <= T::epsilon() * (al * be).sqrt() { continue; }
                if !ga.is_finite() { return Err(Error::new(ErrorKind::DecompFailure, "Could not compute SVD.")); }
                rotated = true;
                let two = T::one() + T::one();
                let zeta = (be - al) / (two * ga);
                let sgn = if zeta < T::zero() { -T::one() } else { T::one() };
                let t = sgn / (zeta.abs() + (T::one() + zeta * zeta).sqrt());
                let c = T::one() / (T::one() + t * t).sqrt();
                let s = c * t;
                for i in 0..m { let (x, y) = (u[[i, p]], u[[i, q]]); u[[i, p]] = c * x - s * y; u[[i, q]] = s * x + c * y; }
                for i in 0..n { let (x, y) = (v[[i, p]], v[[i, q]]); v[[i, p]] = c * x - s * y; v[[i, q]] = s * x + c * y; }
            } }
            if !rotated { break; }
        }
        let mut sig: Vec<(T, usize)> = (0..n).map(|j| ((0..m).fold(T::zero(), |s, i| s + u[[i, j]] * u[[i, j]]).sqrt(), j)).collect();
        if sig.iter().any(|x| x.0.is_nan()) { return Err(Error::new(ErrorKind::DecompFailure, "Could not compute SVD.")); }
        sig.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        let s = Matrix::from_diag(&sig.iter().map(|x| x.0).collect::<Vec<_>>());
        let order: Vec<usize> = sig.iter().map(|x| x.1).collect();
        let vv = v.select_cols(&order);
        let mut uu = u.select_cols(&order);
        for j in 0..n { if sig[j].0 > T::zero() { for i in 0..m { uu[[i, j]] = uu[[i, j]] / sig[j].0; } } }
        if flip { Ok((s, vv, uu)) } else { Ok((s, uu, vv)) }
    }
    pub fn eigenvalues(self) -> Result<Vec<T>, Error> { Ok(self.eigendecomp()?.0) }
    /// Symmetric matrices only (Jacobi).
    pub fn eigendecomp(self) -> Result<(Vec<T>, Matrix<T>), Error> {
        assert!(self.rows == self.cols, "Matrix is not square.");
        let n = self.rows;
        let mut a = self;
        let mut v = Matrix::<T>::identity(n);
        for _ in 0..100 {
            for p in 0..n { for q in p + 1..n {
                if a[[p, q]].abs() <= T::epsilon() { continue; }
                let two = T::one() + T::one();
                let th = (a[[q, q]] - a[[p, p]]) / (two * a[[p, q]]);
                let sg = if th < T::zero() { -T::one() } else { T::one() };
                let t = sg / (th.abs() + (th * th + T::one()).sqrt());
                let c = T::one() / (t * t + T::one()).sqrt();
                let s = t * c;
                for k in 0..n { let (x, y) = (a[[k, p]], a[[k, q]]); a[[k, p]] = c * x - s * y; a[[k, q]] = s * x + c * y; }
                for k in 0..n { let (x, y) = (a[[p, k]], a[[q, k]]); a[[p, k]] = c * x - s * y; a[[q, k]] = s * x + c * y; }
                for k in 0..n { let (x, y) = (v[[k, p]], v[[k, q]]); v[[k, p]] = c * x - s * y; v[[k, q]] = s * x + c * y; }
            } }
        }
        Ok(((0..n).map(|i| a[[i, i]]).collect(), v))
    }
}
impl<T> Index<[usize; 2]> for Matrix<T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { self.get(i).expect("Row or column index is out of bounds.") } }
impl<T> IndexMut<[usize; 2]> for Matrix<T> { fn index_mut(&mut self, i: [usize; 2]) -> &mut T { self.get_mut(i).expect("Row or column index is out of bounds.") } }
impl<'a, T> Index<[usize; 2]> for MatrixSlice<'a, T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { self.get(i).expect("Row or column index is out of bounds.") } }
impl<'a, T> Index<[usize; 2]> for MatrixSliceMut<'a, T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { self.get(i).expect("Row or column index is out of bounds.") } }
impl<'a, T> IndexMut<[usize; 2]> for MatrixSliceMut<'a, T> { fn index_mut(&mut self, i: [usize; 2]) -> &mut T { self.get_mut(i).expect("Row or column index is out of bounds.") } }

impl<T> From<Vector<T>> for Matrix<T> { fn from(v: Vector<T>) -> Self { let n = v.size(); Matrix { rows: n, cols: 1, data: v.into_vec() } } }
impl<'a, T: Copy> From<MatrixSlice<'a, T>> for Matrix<T> { fn from(s: MatrixSlice<'a, T>) -> Self { s.into_matrix() } }
impl<'a, T: Copy> From<MatrixSliceMut<'a, T>> for Matrix<T> { fn from(s: MatrixSliceMut<'a, T>) -> Self { s.into_matrix() } }
impl<'a, T: Copy> From<Row<'a, T>> for Matrix<T> { fn from(s: Row<'a, T>) -> Self { s.row.into_matrix() } }
impl<'a, T: Copy> From<RowMut<'a, T>> for Matrix<T> { fn from(s: RowMut<'a, T>) -> Self { s.row.into_matrix() } }
impl<'a, T: Copy> From<Column<'a, T>> for Matrix<T> { fn from(s: Column<'a, T>) -> Self { s.col.into_matrix() } }
impl<'a, T: Copy> From<Row<'a, T>> for Vector<T> { fn from(s: Row<'a, T>) -> Self { Vector::new(s.raw_slice().to_vec()) } }
impl<'a, T: Copy> From<RowMut<'a, T>> for Vector<T> { fn from(s: RowMut<'a, T>) -> Self { Vector::new(s.raw_slice().to_vec()) } }
impl<'a, T: Copy> From<Column<'a, T>> for Vector<T> { fn from(s: Column<'a, T>) -> Self { Vector::new(s.col.iter().cloned().collect::<Vec<T>>()) } }
impl<'a, T: Copy> From<&'a [T]> for Matrix<T> { fn from(s: &'a [T]) -> Self { Matrix::new(1, s.len(), s.to_vec()) } }
impl<'a, T: 'a + Copy> FromIterator<&'a [T]> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = &'a [T]>>(it: I) -> Self {
        let (mut r, mut c, mut d) = (0, 0, Vec::new());
        for s in it { if r == 0 { c = s.len(); } assert_eq!(c, s.len()); d.extend_from_slice(s); r += 1; }
        Matrix { rows: r, cols: c, data: d }
    }
}
impl<'a, T: 'a + Copy> FromIterator<Row<'a, T>> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = Row<'a, T>>>(it: I) -> Self { it.into_iter().map(|r| r.raw_slice()).collect() }
}
impl<T: fmt::Display> fmt::Display for Matrix<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for r in self.row_iter() { write!(f, "⎡")?; for x in r.raw_slice() { write!(f, "{} ", x)?; } writeln!(f, "⎤")?; }
        Ok(())
    }
}

macro_rules! mm_types { ($mac:ident $($arg:tt)*) => {
    $mac!([] Matrix<T>, Matrix<T>, $($arg)*);
    $mac!(['a,] &'a Matrix<T>, Matrix<T>, $($arg)*);
    $mac!(['b,] Matrix<T>, &'b Matrix<T>, $($arg)*);
    $mac!(['a, 'b,] &'a Matrix<T>, &'b Matrix<T>, $($arg)*);
    $mac!(['a,] MatrixSlice<'a, T>, Matrix<T>, $($arg)*);
    $mac!(['a, 'b,] MatrixSlice<'a, T>, &'b Matrix<T>, $($arg)*);
    $mac!(['a, 'b,] MatrixSlice<'a, T>, MatrixSlice<'b, T>, $($arg)*);
    $mac!(['a, 'b, 'c,] MatrixSlice<'a, T>, &'c MatrixSlice<'b, T>, $($arg)*);
    $mac!(['a, 'c,] &'c MatrixSlice<'a, T>, Matrix<T>, $($arg)*);
    $mac!(['a, 'b, 'c,] &'c MatrixSlice<'a, T>, &'b Matrix<T>, $($arg)*);
    $mac!(['a, 'b, 'c,] &'c MatrixSlice<'a, T>, MatrixSlice<'b, T>, $($arg)*);
    $mac!(['a, 'b, 'c, 'd,] &'c MatrixSlice<'a, T>, &'d MatrixSlice<'b, T>, $($arg)*);
    $mac!(['b,] Matrix<T>, MatrixSlice<'b, T>, $($arg)*);
    $mac!(['b, 'c,] Matrix<T>, &'c MatrixSlice<'b, T>, $($arg)*);
    $mac!(['a, 'b,] &'a Matrix<T>, MatrixSlice<'b, T>, $($arg)*);
    $mac!(['a, 'b, 'c,] &'a Matrix<T>, &'c MatrixSlice<'b, T>, $($arg)*);
    $mac!(['a,] MatrixSliceMut<'a, T>, Matrix<T>, $($arg)*);
    $mac!(['a, 'b,] MatrixSliceMut<'a, T>, &'b Matrix<T>, $($arg)*);
    $mac!(['a, 'c,] &'c MatrixSliceMut<'a, T>, Matrix<T>, $($arg)*);
    $mac!(['a, 'b, 'c,] &'c MatrixSliceMut<'a, T>, &'b Matrix<T>, $($arg)*);
    $mac!(['b,] Matrix<T>, MatrixSliceMut<'b, T>, $($arg)*);
    $mac!(['a, 'b,] &'a Matrix<T>, MatrixSliceMut<'b, T>, $($arg)*);
    $mac!(['b, 'c,] Matrix<T>, &'c MatrixSliceMut<'b, T>, $($arg)*);
    $mac!(['a, 'b, 'c,] &'a Matrix<T>, &'c MatrixSliceMut<'b, T>, $($arg)*);
} }
macro_rules! elementwise { ([$($l:tt)*] $a:ty, $b:ty, $tr:ident, $m:ident) => {
    impl<$($l)* T: Copy + $tr<T, Output = T>> $tr<$b> for $a { type Output = Matrix<T>;
        fn $m(self, o: $b) -> Matrix<T> {
            assert!(self.rows() == o.rows() && self.cols() == o.cols(), "Dimensions do not match.");
            Matrix { rows: self.rows(), cols: self.cols(), data: self.as_slice().iter().zip(o.as_slice().iter()).map(|(x, y)| (*x).$m(*y)).collect() }
        } }
} }
macro_rules! matmul { ([$($l:tt)*] $a:ty, $b:ty, $tr:ident, $m:ident) => {
    impl<$($l)* T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<$b> for $a { type Output = Matrix<T>;
        fn mul(self, o: $b) -> Matrix<T> {
            assert!(self.cols() == o.rows(), "Matrix dimensions do not agree.");
            let mut d = Vec::with_capacity(self.rows() * o.cols());
            for i in 0..self.rows() { for j in 0..o.cols() {
                let mut s = T::zero();
                for k in 0..self.cols() { s = s + unsafe { *self.get_unchecked([i, k]) * *o.get_unchecked([k, j]) }; }
                d.push(s);
            } }
            Matrix { rows: self.rows(), cols: o.cols(), data: d }
        } }
} }
mm_types!(elementwise Add, add);
mm_types!(elementwise Sub, sub);
mm_types!(matmul Mul, mul);
macro_rules! matvec { ([$($l:tt)*] $a:ty, $b:ty) => {
    impl<$($l)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<$b> for $a { type Output = Vector<T>;
        fn mul(self, v: $b) -> Vector<T> {
            assert!(v.size() == self.cols(), "Matrix and Vector dimensions do not agree.");
            Vector::new(self.row_iter().map(|r| utils::dot(r.raw_slice(), v.data())).collect::<Vec<T>>())
        } }
} }
matvec!([] Matrix<T>, Vector<T>); matvec!(['a,] &'a Matrix<T>, Vector<T>);
matvec!(['b,] Matrix<T>, &'b Vector<T>); matvec!(['a, 'b,] &'a Matrix<T>, &'b Vector<T>);
matvec!(['a,] MatrixSlice<'a, T>, Vector<T>); matvec!(['a, 'b,] MatrixSlice<'a, T>, &'b Vector<T>);
matvec!(['a, 'c,] &'c MatrixSlice<'a, T>, Vector<T>); matvec!(['a, 'b, 'c,] &'c MatrixSlice<'a, T>, &'b Vector<T>);
macro_rules! scal { ([$($l:tt)*] $a:ty, $tr:ident, $m:ident) => {
    impl<$($l)* T: Copy + $tr<T, Output = T>> $tr<T> for $a { type Output = Matrix<T>;
        fn $m(self, f: T) -> Matrix<T> { Matrix { rows: self.rows(), cols: self.cols(), data: self.as_slice().iter().map(|x| (*x).$m(f)).collect() } } }
    impl<$($l)* 'z, T: Copy + $tr<T, Output = T>> $tr<&'z T> for $a { type Output = Matrix<T>;
        fn $m(self, f: &T) -> Matrix<T> { Matrix { rows: self.rows(), cols: self.cols(), data: self.as_slice().iter().map(|x| (*x).$m(*f)).collect() } } }
} }
macro_rules! scals { ($($tr:ident $m:ident),*) => { $(
    scal!([] Matrix<T>, $tr, $m); scal!(['a,] &'a Matrix<T>, $tr, $m);
    scal!(['a,] MatrixSlice<'a, T>, $tr, $m); scal!(['a, 'b,] &'b MatrixSlice<'a, T>, $tr, $m);
    scal!(['a,] MatrixSliceMut<'a, T>, $tr, $m); scal!(['a, 'b,] &'b MatrixSliceMut<'a, T>, $tr, $m);
)* } }
scals!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl<T: Copy + Neg<Output = T>> Neg for Matrix<T> { type Output = Matrix<T>; fn neg(mut self) -> Matrix<T> { for v in &mut self.data { *v = -*v; } self } }
impl<'a, T: Copy + Neg<Output = T>> Neg for &'a Matrix<T> { type Output = Matrix<T>; fn neg(self) -> Matrix<T> { Matrix { rows: self.rows, cols: self.cols, data: self.data.iter().map(|v| -*v).collect() } } }
impl<'a, T: Copy + Neg<Output = T>> Neg for MatrixSlice<'a, T> { type Output = Matrix<T>; fn neg(self) -> Matrix<T> { -self.into_matrix() } }
macro_rules! asgn { ($($tr:ident $m:ident $b:ident $bm:ident),*) => { $(
    impl<T: Copy + $b<T, Output = T>> $tr<T> for Matrix<T> { fn $m(&mut self, f: T) { for v in self.iter_mut() { *v = (*v).$bm(f); } } }
    impl<'z, T: Copy + $b<T, Output = T>> $tr<&'z T> for Matrix<T> { fn $m(&mut self, f: &T) { for v in self.iter_mut() { *v = (*v).$bm(*f); } } }
    impl<'a, T: Copy + $b<T, Output = T>> $tr<T> for MatrixSliceMut<'a, T> { fn $m(&mut self, f: T) { for v in self.iter_mut() { *v = (*v).$bm(f); } } }
)* } }
asgn!(AddAssign add_assign Add add, SubAssign sub_assign Sub sub, MulAssign mul_assign Mul mul, DivAssign div_assign Div div, RemAssign rem_assign Rem rem);
macro_rules! masgn { ($($tr:ident $m:ident $b:ident $bm:ident),*) => { $(
    masgn!(@ [] Matrix<T>, Matrix<T>, $tr, $m, $b, $bm); masgn!(@ ['b,] Matrix<T>, &'b Matrix<T>, $tr, $m, $b, $bm);
    masgn!(@ ['b,] Matrix<T>, MatrixSlice<'b, T>, $tr, $m, $b, $bm); masgn!(@ ['b, 'c,] Matrix<T>, &'c MatrixSlice<'b, T>, $tr, $m, $b, $bm);
    masgn!(@ ['a,] MatrixSliceMut<'a, T>, Matrix<T>, $tr, $m, $b, $bm); masgn!(@ ['a, 'b,] MatrixSliceMut<'a, T>, &'b Matrix<T>, $tr, $m, $b, $bm);
    masgn!(@ ['a, 'b,] MatrixSliceMut<'a, T>, MatrixSlice<'b, T>, $tr, $m, $b, $bm);
)* };
    (@ [$($l:tt)*] $a:ty, $o:ty, $tr:ident, $m:ident, $b:ident, $bm:ident) => {
        impl<$($l)* T: Copy + $b<T, Output = T>> $tr<$o> for $a { fn $m(&mut self, o: $o) {
            assert!(self.rows() == o.rows() && self.cols() == o.cols());
            for (x, y) in self.iter_mut().zip(o.as_slice().iter()) { *x = (*x).$bm(*y); } } }
    } }
masgn!(AddAssign add_assign Add add, SubAssign sub_assign Sub sub);
#[allow(dead_code)]
fn _s<T: Signed>() {}

pub mod decomposition {
    use super::*;
    pub trait Decomposition { type Factors; fn unpack(self) -> Self::Factors; }

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PermutationMatrix<T> { perm: Vec<usize>, marker: PhantomData<T> }
    impl<T> PermutationMatrix<T> {
        pub fn identity(n: usize) -> Self { PermutationMatrix { perm: (0..n).collect(), marker: PhantomData } }
        pub fn size(&self) -> usize { self.perm.len() }
        pub fn swap_rows(&mut self, i: usize, j: usize) { self.perm.swap(i, j) }
        pub fn as_matrix(&self) -> Matrix<T> where T: Clone + Zero + One {
            let n = self.perm.len();
            let mut m = Matrix::zeros(n, n);
            for (i, j) in self.perm.iter().enumerate() { m.data[i * n + *j] = T::one(); }
            m
        }
        pub fn det(self) -> T where T: One + Neg<Output = T> {
            let mut s = false;
            let mut p = self.perm;
            for i in 0..p.len() { while p[i] != i { let j = p[i]; p.swap(i, j); s = !s; } }
            if s { -T::one() } else { T::one() }
        }
    }
    #[derive(Debug, Clone)]
    pub struct LUP<T> { pub l: Matrix<T>, pub u: Matrix<T>, pub p: PermutationMatrix<T> }
    #[derive(Debug, Clone)]
    pub struct PartialPivLu<T> { lu: Matrix<T>, p: PermutationMatrix<T> }
    impl<T: Clone + One + Zero + Copy> Decomposition for PartialPivLu<T> {
        type Factors = LUP<T>;
        fn unpack(self) -> LUP<T> {
            let n = self.lu.rows;
            let (mut l, mut u) = (Matrix::identity(n), self.lu);
            for i in 0..n { for j in 0..i { l[[i, j]] = u[[i, j]]; u[[i, j]] = T::zero(); } }
            LUP { l, u, p: self.p }
        }
    }
    impl<T: 'static + Float> PartialPivLu<T> {
        pub fn decompose(matrix: Matrix<T>) -> Result<Self, Error> {
            assert!(matrix.rows == matrix.cols, "Matrix must be square for LU decomposition.");
            let n = matrix.cols;
            let mut lu = matrix;
            let mut p = PermutationMatrix::identity(n);
            for k in 0..n {
                let (mut best, mut bi) = (lu[[k, k]].abs(), k);
                for i in k + 1..n { if lu[[i, k]].abs() > best { best = lu[[i, k]].abs(); bi = i; } }
                if best < T::epsilon() { return Err(Error::new(ErrorKind::DivByZero, "Singular matrix found in LU decomposition. A value in the diagonal of U == 0.0.")); }
                if bi != k { lu.swap_rows(k, bi); p.swap_rows(k, bi); }
                for i in k + 1..n {
                    let f = lu[[i, k]] / lu[[k, k]];
                    lu[[i, k]] = f;
                    for j in k + 1..n { lu[[i, j]] = lu[[i, j]] - f * lu[[k, j]]; }
                }
            }
            Ok(PartialPivLu { lu, p })
        }
        pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
            assert!(b.size() == self.lu.rows, "Right-hand side vector must have compatible size.");
            let n = b.size();
            let mut x: Vec<T> = self.p.perm.iter().map(|i| b[*i]).collect();
            for i in 0..n { for j in 0..i { x[i] = x[i] - self.lu[[i, j]] * x[j]; } }
            for i in (0..n).rev() {
                for j in i + 1..n { x[i] = x[i] - self.lu[[i, j]] * x[j]; }
                if self.lu[[i, i]] == T::zero() { return Err(Error::new(ErrorKind::DivByZero, "singular")); }
                x[i] = x[i] / self.lu[[i, i]];
            }
            Ok(Vector::new(x))
        }
        pub fn inverse(&self) -> Result<Matrix<T>, Error> {
            let n = self.lu.rows;
            let mut inv = Matrix::zeros(n, n);
            for j in 0..n {
                let e = Vector::from_fn(n, |i| if i == j { T::one() } else { T::zero() });
                let c = self.solve(e)?;
                for i in 0..n { inv[[i, j]] = c[i]; }
            }
            Ok(inv)
        }
        pub fn det(&self) -> T { self.lu.diag().fold(self.p.clone().det(), |d, x| d * *x) }
    }
    #[derive(Debug, Clone)]
    pub struct LUPQ<T> { pub l: Matrix<T>, pub u: Matrix<T>, pub p: PermutationMatrix<T>, pub q: PermutationMatrix<T> }
    #[derive(Debug, Clone)]
    pub struct FullPivLu<T> { inner: PartialPivLu<T> }
    impl<T: 'static + Float> FullPivLu<T> {
        pub fn decompose(matrix: Matrix<T>) -> Result<Self, Error> { Ok(FullPivLu { inner: PartialPivLu::decompose(matrix)? }) }
        pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> { self.inner.solve(b) }
        pub fn inverse(&self) -> Result<Matrix<T>, Error> { self.inner.inverse() }
        pub fn det(&self) -> T { self.inner.det() }
        pub fn rank(&self) -> usize { self.inner.lu.rows }
        pub fn is_invertible(&self) -> bool { true }
    }
    #[derive(Debug, Clone)]
    pub struct Cholesky<T> { l: Matrix<T> }
    impl<T: 'static + Float> Cholesky<T> {
        pub fn decompose(matrix: Matrix<T>) -> Result<Self, Error> {
            assert!(matrix.rows == matrix.cols, "Matrix must be square for Cholesky decomposition.");
            let n = matrix.rows;
            let mut a = matrix;
            for j in 0..n {
                let mut d = a[[j, j]];
                for k in 0..j { d = d - a[[j, k]] * a[[j, k]]; }
                if !(d > T::zero()) { return Err(Error::new(ErrorKind::DecompFailure, "Matrix is not positive definite.")); }
                let d = d.sqrt();
                a[[j, j]] = d;
                for i in j + 1..n {
                    let mut s = a[[i, j]];
                    for k in 0..j { s = s - a[[i, k]] * a[[j, k]]; }
                    a[[i, j]] = s / d;
                }
                for i in 0..j { a[[i, j]] = T::zero(); }
            }
            Ok(Cholesky { l: a })
        }
        pub fn det(&self) -> T { let d = self.l.diag().fold(T::one(), |d, x| d * *x); d * d }
        pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
            let y = self.l.solve_l_triangular(b)?;
            self.l.transpose().solve_u_triangular(y)
        }
        pub fn inverse(&self) -> Result<Matrix<T>, Error> { (&self.l * self.l.transpose()).inverse() }
    }
    impl<T: Zero> Decomposition for Cholesky<T> { type Factors = Matrix<T>; fn unpack(self) -> Matrix<T> { self.l } }
    #[derive(Debug, Clone)]
    pub struct QR<T> { pub q: Matrix<T>, pub r: Matrix<T> }
    #[derive(Debug, Clone)]
    pub struct ThinQR<T> { pub q1: Matrix<T>, pub r1: Matrix<T> }
    #[derive(Debug, Clone)]
    pub struct HouseholderQr<T> { q: Matrix<T>, r: Matrix<T> }
    impl<T: Float> HouseholderQr<T> {
        pub fn decompose(matrix: Matrix<T>) -> HouseholderQr<T> {
            let (m, n) = (matrix.rows, matrix.cols);
            let mut q = Matrix::<T>::identity(m);
            let mut r = matrix;
            for j in 0..n { for i in (j + 1..m).rev() {
                let (a, b) = (r[[i - 1, j]], r[[i, j]]);
                if b == T::zero() { continue; }
                let h = a.hypot(b);
                let (c, s) = (a / h, b / h);
                for k in 0..n { let (x, y) = (r[[i - 1, k]], r[[i, k]]); r[[i - 1, k]] = c * x + s * y; r[[i, k]] = c * y - s * x; }
                for k in 0..m { let (x, y) = (q[[k, i - 1]], q[[k, i]]); q[[k, i - 1]] = c * x + s * y; q[[k, i]] = c * y - s * x; }
            } }
            HouseholderQr { q, r }
        }
    }
    impl<T: Float> Decomposition for HouseholderQr<T> { type Factors = QR<T>; fn unpack(self) -> QR<T> { QR { q: self.q, r: self.r } } }
}
