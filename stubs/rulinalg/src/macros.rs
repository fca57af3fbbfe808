#[macro_export]
macro_rules! matrix {
    () => { { use $crate::matrix::Matrix; Matrix::new(0, 0, vec![]) } };
    ($( $( $x:expr ),* ; )*) => { $crate::matrix!( $( $( $x ),* );* ) };
    ($( $( $x:expr ),* );*) => { {
        let rows = [ $( vec![ $($x),* ] ),* ];
        let r = rows.len();
        let c = rows[0].len();
        let mut data = Vec::with_capacity(r * c);
        for row in rows.iter() { assert_eq!(row.len(), c); data.extend(row.iter().cloned()); }
        $crate::matrix::Matrix::new(r, c, data)
    } };
}
#[macro_export]
macro_rules! vector {
    () => { $crate::vector::Vector::new(vec![]) };
    ($($x:expr),*) => { $crate::vector::Vector::new(vec![$($x),*]) };
    ($($x:expr,)*) => { $crate::vector::Vector::new(vec![$($x),*]) };
}
#[doc(hidden)]
pub fn __close<T: Into<f64> + Copy>(a: T, b: T, tol: f64) -> bool {
    let (a, b) = (a.into(), b.into());
    a == b || (a - b).abs() <= tol
}
#[macro_export]
macro_rules! assert_scalar_eq {
    ($x:expr, $y:expr) => { assert_eq!($x, $y) };
    ($x:expr, $y:expr, comp = exact) => { assert_eq!($x, $y) };
    ($x:expr, $y:expr, comp = abs, tol = $tol:expr) => { {
        let (a, b) = (($x) as f64, ($y) as f64);
        assert!($crate::macros::__close(a, b, ($tol) as f64), "scalars differ: {:?} {:?}", a, b) } };
    ($x:expr, $y:expr, comp = $c:ident) => { assert_scalar_eq!($x, $y, comp = abs, tol = 1e-9) };
    ($x:expr, $y:expr, comp = $c:ident, $($r:tt)*) => { assert_scalar_eq!($x, $y, comp = abs, tol = 1e-9) };
}
#[macro_export]
macro_rules! assert_vector_eq {
    ($x:expr, $y:expr) => { assert_vector_eq!($x, $y, comp = abs, tol = 0.0) };
    ($x:expr, $y:expr, comp = exact) => { assert_vector_eq!($x, $y, comp = abs, tol = 0.0) };
    ($x:expr, $y:expr, comp = abs, tol = $tol:expr) => { {
        let (a, b) = (&$x, &$y);
        assert_eq!(a.size(), b.size());
        for (p, q) in a.iter().zip(b.iter()) {
            assert!(*p == *q || ((*p as f64) - (*q as f64)).abs() <= ($tol) as f64, "vectors differ: {:?} {:?}", a.data(), b.data());
        } } };
    ($x:expr, $y:expr, comp = $c:ident) => { assert_vector_eq!($x, $y, comp = abs, tol = 1e-9) };
    ($x:expr, $y:expr, comp = $c:ident, $($r:tt)*) => { assert_vector_eq!($x, $y, comp = abs, tol = 1e-9) };
}
#[macro_export]
macro_rules! assert_matrix_eq {
    ($x:expr, $y:expr) => { assert_matrix_eq!($x, $y, comp = abs, tol = 0.0) };
    ($x:expr, $y:expr, comp = exact) => { assert_matrix_eq!($x, $y, comp = abs, tol = 0.0) };
    ($x:expr, $y:expr, comp = abs, tol = $tol:expr) => { {
        #[allow(unused_imports)]
        use $crate::matrix::BaseMatrix as __BM;
        let (a, b) = (&$x, &$y);
        assert_eq!((a.rows(), a.cols()), (b.rows(), b.cols()));
        for (p, q) in a.iter().zip(b.iter()) {
            assert!(*p == *q || ((*p as f64) - (*q as f64)).abs() <= ($tol) as f64, "matrices differ: {:?} {:?}", a, b);
        } } };
    ($x:expr, $y:expr, comp = $c:ident) => { assert_matrix_eq!($x, $y, comp = abs, tol = 1e-9) };
    ($x:expr, $y:expr, comp = $c:ident, $($r:tt)*) => { assert_matrix_eq!($x, $y, comp = abs, tol = 1e-9) };
}
