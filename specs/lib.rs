//! Reference algorithms.  They are never run: the analyser derives their value graphs and compares
//! them with those of the crate.
#![allow(dead_code, unused_mut, unused_variables)]
extern crate num;
extern crate rand;
extern crate rulinalg;
use rand::{thread_rng, Rng};
use rulinalg::matrix::{Axes, BaseMatrix, Matrix};
use rulinalg::matrix::decomposition::{Cholesky, Decomposition};
use rulinalg::vector::Vector;

pub trait Optimizable {
    type Inputs;
    type Targets;
    fn compute_grad(&self, params: &[f64], inputs: &Self::Inputs, targets: &Self::Targets) -> (f64, Vec<f64>);
}

const STILL: f64 = 1e-20;

fn shuffle(a: &mut [usize]) {
    let mut rng = thread_rng();
    let n = a.len();
    for i in 0..n {
        let j = rng.gen_range(i, n);
        a.swap(i, j);
    }
}

pub fn gradient_desc<M: Optimizable>(alpha: f64, iters: usize, model: &M, start: &[f64], inputs: &M::Inputs, targets: &M::Targets) -> Vec<f64> {
    let mut w = Vector::new(start.to_vec());
    let mut last = 0.0;
    for _ in 0..iters {
        let (cost, grad) = model.compute_grad(w.data(), inputs, targets);
        if (last - cost).abs() < STILL {
            break;
        }
        w = &w - Vector::new(grad) * alpha;
        last = cost;
    }
    w.into_vec()
}

pub fn stochastic_gd<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>>(alpha: f64, mu: f64, iters: usize, model: &M, start: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> Vec<f64> {
    let mut w = Vector::new(start.to_vec());
    let mut v = Vector::zeros(start.len());
    let mut order = (0..inputs.rows()).collect::<Vec<_>>();
    let mut last = 0.0;
    for _ in 0..iters {
        let mut total = 0.0;
        shuffle(&mut order);
        for r in &order {
            let (cost, grad) = model.compute_grad(w.data(), &inputs.select_rows(&[*r]), &targets.select_rows(&[*r]));
            let before = v.clone();
            v = &v * alpha + Vector::new(grad) * mu;
            w = &w - (&v * (1.0 + alpha) - &before * alpha);
            total += cost;
        }
        let mean = total / inputs.rows() as f64;
        if (last - mean).abs() < STILL {
            break;
        }
        last = mean;
    }
    w.into_vec()
}

pub fn ada_grad<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>>(alpha: f64, tau: f64, iters: usize, model: &M, start: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> Vec<f64> {
    let mut w = Vector::new(start.to_vec());
    let mut seen = Vector::zeros(start.len());
    let mut order = (0..inputs.rows()).collect::<Vec<_>>();
    let mut last = 0.0;
    for _ in 0..iters {
        let mut total = 0.0;
        shuffle(&mut order);
        for r in &order {
            let (cost, grad) = model.compute_grad(w.data(), &inputs.select_rows(&[*r]), &targets.select_rows(&[*r]));
            let grad = Vector::new(grad);
            seen = &seen + grad.elemul(&grad);
            let scale = seen.clone().apply(&|s| alpha / (tau + s.sqrt()));
            w = &w - grad.elemul(&scale);
            total += cost;
        }
        let mean = total / inputs.rows() as f64;
        if (last - mean).abs() < STILL {
            break;
        }
        last = mean;
    }
    w.into_vec()
}

pub fn rms_prop<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>>(rate: f64, decay: f64, epsilon: f64, iters: usize, model: &M, start: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> Vec<f64> {
    let mut w = Vector::new(start.to_vec());
    let mut avg = Vector::zeros(start.len());
    let mut order = (0..inputs.rows()).collect::<Vec<_>>();
    let mut last = 0.0;
    for _ in 0..iters {
        let mut total = 0.0;
        shuffle(&mut order);
        for r in &order {
            let (cost, grad) = model.compute_grad(w.data(), &inputs.select_rows(&[*r]), &targets.select_rows(&[*r]));
            let grad = Vector::new(grad);
            avg = &avg * decay + grad.elemul(&grad) * (1.0 - decay);
            let scale = avg.clone().apply(&|s| rate / (s + epsilon).sqrt());
            w = &w - grad.elemul(&scale);
            total += cost;
        }
        let mean = total / inputs.rows() as f64;
        if (last - mean).abs() < STILL {
            break;
        }
        last = mean;
    }
    w.into_vec()
}

pub fn confusion<T: Ord + Eq + ::std::hash::Hash + Copy>(predictions: &[T], targets: &[T], labels: Option<Vec<T>>) -> Matrix<usize> {
    if predictions.len() != targets.len() {
        panic!();
    }
    let labels = match labels {
        Some(l) => l,
        None => {
            let mut all: Vec<T> = predictions.iter().chain(targets).cloned().collect();
            all.sort();
            all.dedup();
            all
        }
    };
    let mut at = ::std::collections::HashMap::new();
    for (i, l) in labels.iter().enumerate() {
        if at.insert(*l, i).is_some() {
            panic!();
        }
    }
    let mut c = Matrix::new(labels.len(), labels.len(), vec![0; labels.len() * labels.len()]);
    for i in 0..targets.len() {
        if at.contains_key(&targets[i]) && at.contains_key(&predictions[i]) {
            c[[at[&targets[i]], at[&predictions[i]]]] += 1;
        }
    }
    c
}

// ------------------------------------------------------------------ gaussian process
pub trait Kernel {
    fn kernel(&self, x1: &[f64], x2: &[f64]) -> f64;
}

pub trait MeanFunc {
    fn func(&self, x: Matrix<f64>) -> Vector<f64>;
}

fn gram<K: Kernel>(ker: &K, a: &Matrix<f64>, b: &Matrix<f64>) -> Matrix<f64> {
    let mut d = Vec::new();
    for p in a.row_iter() {
        for q in b.row_iter() {
            d.push(ker.kernel(p.raw_slice(), q.raw_slice()));
        }
    }
    Matrix::new(a.rows(), b.rows(), d)
}

/// factor of the kernel matrix with noise, and the weights of the training points
pub fn gp_fit<K: Kernel, M: MeanFunc>(ker: &K, mean: &M, noise: f64, x: &Matrix<f64>, y: &Vector<f64>) -> Result<(Matrix<f64>, Vector<f64>), ()> {
    let k = gram(ker, x, x) + Matrix::identity(x.rows()) * noise;
    let l = match Cholesky::decompose(k) {
        Ok(l) => l.unpack(),
        Err(_) => return Err(()),
    };
    let v = l.solve_l_triangular(y - mean.func(x.clone())).unwrap();
    let alpha = l.transpose().solve_u_triangular(v).unwrap();
    Ok((l, alpha))
}

pub fn gp_mean<K: Kernel, M: MeanFunc>(ker: &K, mean: &M, noise: f64, x: &Matrix<f64>, y: &Vector<f64>, q: &Matrix<f64>) -> Vector<f64> {
    let (_, alpha) = gp_fit(ker, mean, noise, x, y).unwrap();
    mean.func(q.clone()) + gram(ker, q, x) * alpha
}

pub fn gp_posterior<K: Kernel, M: MeanFunc>(ker: &K, mean: &M, noise: f64, x: &Matrix<f64>, y: &Vector<f64>, q: &Matrix<f64>) -> (Vector<f64>, Matrix<f64>) {
    let (l, alpha) = gp_fit(ker, mean, noise, x, y).unwrap();
    let c = gram(ker, q, x);
    let mut d = Vec::new();
    for r in c.row_iter() {
        d.extend(l.solve_l_triangular(Vector::new(r.raw_slice())).unwrap().into_vec());
    }
    let v = Matrix::new(q.rows(), x.rows(), d);
    (mean.func(q.clone()) + c * alpha, gram(ker, q, q) - &v * v.transpose())
}

// ------------------------------------------------------------------ support vector machine
/// kernelised Pegasos: coefficients over the rows of x (already with a leading one)
pub fn pegasos<K: Kernel>(ker: &K, lambda: f64, iters: usize, x: &Matrix<f64>, y: &Vector<f64>) -> Vector<f64> {
    let mut rng = thread_rng();
    let mut alpha = vec![0.0; x.rows()];
    for t in 1..iters + 1 {
        let i = rng.gen_range(0, x.rows());
        let mut margin = 0.0;
        for j in 0..x.rows() {
            margin += alpha[j] * y[j] * ker.kernel(x.row(i).raw_slice(), x.row(j).raw_slice());
        }
        if y[i] * margin / (lambda * t as f64) < 1.0 {
            alpha[i] += 1.0;
        }
    }
    Vector::new(alpha) / iters as f64
}

pub fn svm_predict<K: Kernel>(ker: &K, lambda: f64, iters: usize, x: &Matrix<f64>, y: &Vector<f64>, q: &Matrix<f64>) -> Vector<f64> {
    let x1 = Matrix::ones(x.rows(), 1).hcat(x);
    let q1 = Matrix::ones(q.rows(), 1).hcat(q);
    let alpha = pegasos(ker, lambda, iters, &x1, y);
    let w = alpha.elemul(y) / lambda;
    (gram(ker, &q1, &x1) * w).apply(&|d| d.signum())
}

// ------------------------------------------------------------------ k-means
fn dist2(a: &[f64], b: &[f64]) -> f64 {
    let mut d = 0.0;
    for j in 0..a.len() {
        d += (a[j] - b[j]) * (a[j] - b[j]);
    }
    d
}

/// index of the nearest row of c and the squared distance to it, the first of equals
pub fn nearest(c: &Matrix<f64>, p: &[f64]) -> (usize, f64) {
    let mut ds = Vec::new();
    for r in c.row_iter() {
        ds.push(dist2(r.raw_slice(), p));
    }
    Vector::new(ds).argmin()
}

pub fn kmeans_fit(start: &Matrix<f64>, iters: usize, x: &Matrix<f64>) -> Matrix<f64> {
    let mut c = start.clone();
    let mut last = 0.0;
    for _ in 0..iters {
        let mut class = Vec::new();
        let mut cost = 0.0;
        for p in x.row_iter() {
            let (i, d) = nearest(&c, p.raw_slice());
            class.push(i);
            cost += d;
        }
        let mut data = Vec::new();
        for k in 0..c.rows() {
            let mut members = Vec::new();
            for i in 0..x.rows() {
                if class[i] == k {
                    members.push(i);
                }
            }
            if members.is_empty() {
                data.extend_from_slice(c.row(k).raw_slice());
            } else {
                data.extend(x.select_rows(&members).mean(Axes::Row).into_vec());
            }
        }
        c = Matrix::new(c.rows(), c.cols(), data);
        if (last - cost).abs() < 1e-14 {
            break;
        }
        last = cost;
    }
    c
}

pub fn kmeans_predict(c: &Matrix<f64>, q: &Matrix<f64>) -> Vector<usize> {
    let mut class = Vec::new();
    for p in q.row_iter() {
        class.push(nearest(c, p.raw_slice()).0);
    }
    Vector::new(class)
}

/// k different rows of x, by rejection
pub fn forgy(k: usize, x: &Matrix<f64>) -> Matrix<f64> {
    let mut rng = thread_rng();
    let mut rows: Vec<usize> = Vec::new();
    while rows.len() < k {
        let r = rng.gen_range(0, x.rows());
        if !rows.contains(&r) {
            rows.push(r);
        }
    }
    x.select_rows(&rows)
}

/// means of a random partition whose class i contains row i
pub fn random_partition(k: usize, x: &Matrix<f64>) -> Matrix<f64> {
    let mut rng = thread_rng();
    let mut class = Vec::new();
    for _ in k..x.rows() {
        class.push(rng.gen_range(0, k));
    }
    let mut data = Vec::new();
    for c in 0..k {
        let mut members = vec![c];
        for i in k..x.rows() {
            if class[i - k] == c {
                members.push(i);
            }
        }
        data.extend(x.select_rows(&members).mean(Axes::Row).into_vec());
    }
    Matrix::new(k, x.cols(), data)
}

/// the index whose share of the total weight holds a uniform draw
pub fn weighted(w: &[f64]) -> usize {
    let mut total = 0.0;
    for x in w {
        total += *x;
    }
    let r = thread_rng().gen_range(0.0f64, total);
    let mut s = 0.0;
    for i in 0..w.len() {
        s += w[i];
        if r < s {
            return i;
        }
    }
    panic!()
}

pub fn kplusplus(k: usize, x: &Matrix<f64>) -> Result<Matrix<f64>, ()> {
    let mut rng = thread_rng();
    let mut data = x.row(rng.gen_range(0, x.rows())).raw_slice().to_vec();
    for i in 1..k {
        let c = Matrix::new(i, x.cols(), data.clone());
        let mut ds = Vec::new();
        for p in x.row_iter() {
            ds.push(nearest(&c, p.raw_slice()).1);
        }
        for d in &ds {
            if !d.is_finite() {
                return Err(());
            }
        }
        let mut same = true;
        for d in &ds {
            if *d != 0.0 {
                same = false;
            }
        }
        if same {
            return Err(());
        }
        data.extend_from_slice(x.row(weighted(&ds)).raw_slice());
    }
    Ok(Matrix::new(k, x.cols(), data))
}

/// A class-conditional distribution of a naive Bayes classifier.
pub trait Distribution: Sized {
    type Error;
    fn from_model_params(class_count: usize, features: usize) -> Self;
    fn update_params(&mut self, data: &Matrix<f64>, class: usize) -> Result<(), Self::Error>;
    fn joint_log_lik(&self, data: &Matrix<f64>, class_prior: &[f64]) -> Result<Matrix<f64>, Self::Error>;
}

fn class_of(row: &[f64]) -> Option<usize> {
    row.iter().position(|x| *x == 1.0)
}

/// The distribution after every class has seen its rows, and the share of the rows each class has.
/// Error: None for a row that names no class.
pub fn nb_fit<T: Distribution>(inputs: &Matrix<f64>, targets: &Matrix<f64>) -> Result<(T, Vec<f64>), Option<T::Error>> {
    let mut distr = T::from_model_params(targets.cols(), inputs.cols());
    let mut classes = Vec::new();
    for row in targets.row_iter() {
        match class_of(row.raw_slice()) {
            Some(c) => classes.push(c),
            None => return Err(None),
        }
    }
    let mut prior = Vec::new();
    for c in 0..targets.cols() {
        let members = (0..inputs.rows()).filter(|i| classes[*i] == c).collect::<Vec<usize>>();
        prior.push(members.len() as f64 / inputs.rows() as f64);
        if members.len() > 0 {
            distr.update_params(&inputs.select_rows(&members), c).map_err(Some)?;
        }
    }
    Ok((distr, prior))
}

/// Joint log probabilities of queries and classes; classes without rows are impossible.
pub fn nb_log_probs<T: Distribution>(distr: &T, prior: &[f64], queries: &Matrix<f64>) -> Result<Matrix<f64>, T::Error> {
    let l = distr.joint_log_lik(queries, prior)?;
    let mut data = Vec::new();
    for i in 0..queries.rows() {
        for c in 0..prior.len() {
            data.push(if prior[c] == 0.0 { std::f64::NEG_INFINITY } else { l[[i, c]] });
        }
    }
    Ok(Matrix::new(queries.rows(), prior.len(), data))
}

pub fn nb_predict<T: Distribution>(distr: &T, prior: &[f64], queries: &Matrix<f64>) -> Result<Matrix<f64>, T::Error> {
    let l = nb_log_probs(distr, prior, queries)?;
    let mut data = Vec::new();
    for i in 0..queries.rows() {
        let best = rulinalg::utils::argmax(l.row(i).raw_slice()).0;
        for c in 0..prior.len() {
            data.push(if c == best { 1.0 } else { 0.0 });
        }
    }
    Ok(Matrix::new(queries.rows(), prior.len(), data))
}

/// The family of a generalized linear model.
pub trait Criterion {
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64>;
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64>;
    fn compute_y_bar(&self, y: &[f64], mu: &[f64]) -> Vec<f64>;
    fn apply_link_func(&self, vec: Vector<f64>) -> Vector<f64>;
    fn apply_link_inv(&self, vec: Vector<f64>) -> Vector<f64>;
}

/// Coefficients by at most eight rounds of iteratively reweighted least squares.
pub fn glm_fit<C: Criterion>(family: &C, inputs: &Matrix<f64>, targets: &Vector<f64>) -> Result<Vector<f64>, ()> {
    let full = Matrix::ones(inputs.rows(), 1).hcat(inputs);
    let full_t = full.transpose();
    let mut mean = Vector::new(family.initialize_mu(targets.data()));
    let mut response = family.apply_link_func(mean.clone());
    let mut beta: Vector<f64> = Vector::zeros(inputs.cols() + 1);
    for _ in 0..8 {
        let weighted = &full_t * Matrix::from_diag(&family.compute_working_weight(mean.data()));
        let normal = match (&weighted * &full).inverse() {
            Ok(m) => m,
            Err(_) => return Err(()),
        };
        let next: Vector<f64> = normal * weighted * response;
        let mut moved: f64 = 0.0;
        for j in 0..beta.size() {
            moved += (next[j] - beta[j]).abs();
        }
        beta = next;
        if moved < 1e-10 {
            break;
        }
        let linear = &full * &beta;
        mean = family.apply_link_inv(linear.clone());
        response = linear + Vector::new(family.compute_y_bar(targets.data(), mean.data()));
    }
    Ok(beta)
}
