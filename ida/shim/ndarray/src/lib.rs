//! A stand-in for the part of the `ndarray` 0.12 API that /repo/src is written against. The real
//! crate cannot be fetched here. Semantics follow its documentation: n-dimensional strided arrays
//! over owned or borrowed storage, broadcasting arithmetic, slicing, lanes and `Zip`.
use num_traits::{One, Zero};
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;

// ------------------------------------------------------------------------------------- dimensions

pub type Ix = usize;
pub type Ixs = isize;

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, Debug)]
pub struct Dim<I>(pub(crate) I);
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type Ix3 = Dim<[usize; 3]>;
pub type IxDyn = Dim<Vec<usize>>;

#[allow(non_snake_case)]
pub fn Ix1(n: usize) -> Ix1 {
    Dim([n])
}
#[allow(non_snake_case)]
pub fn Ix2(n: usize, m: usize) -> Ix2 {
    Dim([n, m])
}

pub trait Dimension: Clone + Eq + fmt::Debug + Default + Send + Sync {
    type Pattern;
    type Smaller: Dimension;
    type Larger: Dimension;
    fn slice(&self) -> &[usize];
    fn slice_mut(&mut self) -> &mut [usize];
    /// None if the number of axes is wrong
    fn from_slice(s: &[usize]) -> Option<Self>;
    fn into_pattern(self) -> Self::Pattern;
    fn ndim(&self) -> usize {
        self.slice().len()
    }
    fn size(&self) -> usize {
        self.slice().iter().product()
    }
}
macro_rules! fixed_dim {
    ($n:expr, $small:ty, $large:ty, $pat:ty, $s:ident => $conv:expr) => {
        impl Dimension for Dim<[usize; $n]> {
            type Pattern = $pat;
            type Smaller = $small;
            type Larger = $large;
            fn slice(&self) -> &[usize] {
                &self.0
            }
            fn slice_mut(&mut self) -> &mut [usize] {
                &mut self.0
            }
            fn from_slice(s: &[usize]) -> Option<Self> {
                <[usize; $n]>::try_from(s).ok().map(Dim)
            }
            fn into_pattern(self) -> $pat {
                let $s = self.0;
                $conv
            }
        }
        impl Index<usize> for Dim<[usize; $n]> {
            type Output = usize;
            fn index(&self, i: usize) -> &usize {
                &self.0[i]
            }
        }
    };
}
fixed_dim!(0, Ix0, Ix1, (), _s => ());
fixed_dim!(1, Ix0, Ix2, usize, s => s[0]);
fixed_dim!(2, Ix1, Ix3, (usize, usize), s => (s[0], s[1]));
fixed_dim!(3, Ix2, IxDyn, (usize, usize, usize), s => (s[0], s[1], s[2]));
impl Dimension for IxDyn {
    type Pattern = IxDyn;
    type Smaller = IxDyn;
    type Larger = IxDyn;
    fn slice(&self) -> &[usize] {
        &self.0
    }
    fn slice_mut(&mut self) -> &mut [usize] {
        &mut self.0
    }
    fn from_slice(s: &[usize]) -> Option<Self> {
        Some(Dim(s.to_vec()))
    }
    fn into_pattern(self) -> IxDyn {
        self
    }
}

pub trait RemoveAxis: Dimension {}
impl RemoveAxis for Ix1 {}
impl RemoveAxis for Ix2 {}
impl RemoveAxis for Ix3 {}
impl RemoveAxis for IxDyn {}

pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}
impl<D: Dimension> IntoDimension for D {
    type Dim = D;
    fn into_dimension(self) -> D {
        self
    }
}
impl IntoDimension for usize {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim([self])
    }
}
impl IntoDimension for (usize,) {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim([self.0])
    }
}
impl IntoDimension for (usize, usize) {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Dim([self.0, self.1])
    }
}
impl IntoDimension for (usize, usize, usize) {
    type Dim = Ix3;
    fn into_dimension(self) -> Ix3 {
        Dim([self.0, self.1, self.2])
    }
}
macro_rules! arr_dim {
    ($($n:expr),*) => { $(impl IntoDimension for [usize; $n] {
        type Dim = Dim<[usize; $n]>;
        fn into_dimension(self) -> Self::Dim { Dim(self) }
    })* };
}
arr_dim!(0, 1, 2, 3);
impl IntoDimension for Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim(self)
    }
}
impl IntoDimension for &[usize] {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim(self.to_vec())
    }
}
/// shapes are plain dimensions here (row-major only)
pub trait ShapeBuilder: IntoDimension {}
impl<T: IntoDimension> ShapeBuilder for T {}

pub trait NdIndex<D> {
    fn offset(&self, dim: &[usize], strides: &[usize]) -> Option<isize>;
}
fn off(idx: &[usize], dim: &[usize], strides: &[usize]) -> Option<isize> {
    if idx.len() != dim.len() {
        return None;
    }
    let mut o = 0isize;
    for i in 0..idx.len() {
        if idx[i] >= dim[i] {
            return None;
        }
        o += idx[i] as isize * strides[i] as isize;
    }
    Some(o)
}
macro_rules! nd_index {
    ($t:ty, $d:ty, $s:ident => $e:expr) => {
        impl NdIndex<$d> for $t {
            fn offset(&self, dim: &[usize], strides: &[usize]) -> Option<isize> {
                let $s = self;
                off(&$e, dim, strides)
            }
        }
    };
}
nd_index!(usize, Ix1, s => [*s]);
nd_index!((usize, usize), Ix2, s => [s.0, s.1]);
nd_index!((usize, usize, usize), Ix3, s => [s.0, s.1, s.2]);
nd_index!([usize; 0], Ix0, s => *s);
nd_index!([usize; 1], Ix1, s => *s);
nd_index!([usize; 2], Ix2, s => *s);
nd_index!([usize; 3], Ix3, s => *s);
nd_index!((), Ix0, _s => []);
nd_index!(Ix1, Ix1, s => s.0);
nd_index!(Ix2, Ix2, s => s.0);
nd_index!(usize, IxDyn, s => [*s]);
nd_index!([usize; 1], IxDyn, s => *s);
nd_index!([usize; 2], IxDyn, s => *s);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Axis(pub usize);
impl Axis {
    pub fn index(self) -> usize {
        self.0
    }
}

// ---------------------------------------------------------------------------------------- storage

pub trait Data {
    type Elem;
}
pub trait RawData: Data {}
impl<T: Data> RawData for T {}
pub trait DataMut: Data {}
pub trait DataClone: Data + Sized {
    /// a copy of the storage, and the pointer into it that corresponds to `p`
    fn clone_with(&self, p: *mut Self::Elem) -> (Self, *mut Self::Elem);
}
pub trait DataOwned: DataMut + Sized {
    fn new(v: Vec<Self::Elem>) -> (Self, *mut Self::Elem);
}

pub struct OwnedRepr<A>(Vec<A>);
pub struct ViewRepr<A>(PhantomData<A>);

impl<A> Data for OwnedRepr<A> {
    type Elem = A;
}
impl<A> DataMut for OwnedRepr<A> {}
impl<A> DataOwned for OwnedRepr<A> {
    fn new(mut v: Vec<A>) -> (Self, *mut A) {
        let p = v.as_mut_ptr();
        (OwnedRepr(v), p)
    }
}
impl<A: Clone> DataClone for OwnedRepr<A> {
    fn clone_with(&self, p: *mut A) -> (Self, *mut A) {
        let o = unsafe { p.offset_from(self.0.as_ptr()) };
        let mut v = self.0.clone();
        let q = unsafe { v.as_mut_ptr().offset(o) };
        (OwnedRepr(v), q)
    }
}
impl<'a, A> Data for ViewRepr<&'a A> {
    type Elem = A;
}
impl<'a, A> DataClone for ViewRepr<&'a A> {
    fn clone_with(&self, p: *mut A) -> (Self, *mut A) {
        (ViewRepr(PhantomData), p)
    }
}
impl<'a, A> Data for ViewRepr<&'a mut A> {
    type Elem = A;
}
impl<'a, A> DataMut for ViewRepr<&'a mut A> {}

pub struct ArrayBase<S: Data, D> {
    data: S,
    ptr: *mut S::Elem,
    dim: D,
    strides: D,
}
// SAFETY: the pointer stands for the storage or for a borrow of it
unsafe impl<S: Data + Send, D: Send> Send for ArrayBase<S, D> where S::Elem: Send {}
unsafe impl<S: Data + Sync, D: Sync> Sync for ArrayBase<S, D> where S::Elem: Sync {}

pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type Array0<A> = Array<A, Ix0>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type Array3<A> = Array<A, Ix3>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;

#[derive(Debug, Clone, PartialEq)]
pub struct ShapeError;
impl fmt::Display for ShapeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("ShapeError/IncompatibleShape: incompatible shapes")
    }
}
impl std::error::Error for ShapeError {}

fn default_strides<D: Dimension>(dim: &D) -> D {
    let mut s = dim.clone();
    let n = dim.ndim();
    let mut acc = 1usize;
    for i in (0..n).rev() {
        s.slice_mut()[i] = acc;
        acc *= dim.slice()[i];
    }
    s
}
/// the next index in row-major order
fn next_index(dim: &[usize], idx: &mut [usize]) -> bool {
    for i in (0..dim.len()).rev() {
        idx[i] += 1;
        if idx[i] < dim[i] {
            return true;
        }
        idx[i] = 0;
    }
    false
}
fn zero_index<D: Dimension>(dim: &D) -> D {
    let mut z = dim.clone();
    for v in z.slice_mut() {
        *v = 0;
    }
    z
}

pub struct Iter<'a, A, D> {
    ptr: *mut A,
    dim: D,
    strides: D,
    idx: D,
    left: usize,
    _p: PhantomData<&'a A>,
}
impl<'a, A, D: Dimension> Iter<'a, A, D> {
    fn step(&mut self) -> Option<*mut A> {
        if self.left == 0 {
            return None;
        }
        let o = off(self.idx.slice(), self.dim.slice(), self.strides.slice()).unwrap();
        self.left -= 1;
        let d = self.dim.clone();
        next_index(d.slice(), self.idx.slice_mut());
        Some(unsafe { self.ptr.offset(o) })
    }
}
impl<'a, A, D: Dimension> Iterator for Iter<'a, A, D> {
    type Item = &'a A;
    fn next(&mut self) -> Option<&'a A> {
        self.step().map(|p| unsafe { &*p })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for Iter<'a, A, D> {}
impl<'a, A, D: Dimension> Iter<'a, A, D> {
    fn step_back(&mut self) -> Option<*mut A> {
        if self.left == 0 {
            return None;
        }
        // the element `left - 1` places ahead of the front
        let mut idx = self.idx.clone();
        for _ in 1..self.left {
            next_index(self.dim.slice(), idx.slice_mut());
        }
        self.left -= 1;
        let o = off(idx.slice(), self.dim.slice(), self.strides.slice()).unwrap();
        Some(unsafe { self.ptr.offset(o) })
    }
}
impl<'a, A, D: Dimension> DoubleEndedIterator for Iter<'a, A, D> {
    fn next_back(&mut self) -> Option<&'a A> {
        self.step_back().map(|p| unsafe { &*p })
    }
}
impl<'a, A, D: Clone> Clone for Iter<'a, A, D> {
    fn clone(&self) -> Self {
        Iter { ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone(), idx: self.idx.clone(), left: self.left, _p: PhantomData }
    }
}
pub struct IterMut<'a, A, D>(Iter<'a, A, D>, PhantomData<&'a mut A>);
impl<'a, A, D: Dimension> Iterator for IterMut<'a, A, D> {
    type Item = &'a mut A;
    fn next(&mut self) -> Option<&'a mut A> {
        self.0.step().map(|p| unsafe { &mut *p })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.left, Some(self.0.left))
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for IterMut<'a, A, D> {}
impl<'a, A, D: Dimension> DoubleEndedIterator for IterMut<'a, A, D> {
    fn next_back(&mut self) -> Option<&'a mut A> {
        self.0.step_back().map(|p| unsafe { &mut *p })
    }
}

// ------------------------------------------------------------------------------ creation and shape

impl<S: DataOwned, D: Dimension> ArrayBase<S, D> {
    fn from_vec_dim(dim: D, v: Vec<S::Elem>) -> Self {
        assert_eq!(dim.size(), v.len());
        let (data, ptr) = S::new(v);
        let strides = default_strides(&dim);
        ArrayBase { data, ptr, dim, strides }
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(shape: Sh, elem: S::Elem) -> Self
    where
        S::Elem: Clone,
    {
        let dim = shape.into_dimension();
        let n = dim.size();
        Self::from_vec_dim(dim, vec![elem; n])
    }
    pub fn zeros<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Clone + Zero,
    {
        Self::from_elem(shape, S::Elem::zero())
    }
    pub fn ones<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Clone + One,
    {
        Self::from_elem(shape, S::Elem::one())
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Default,
    {
        let dim = shape.into_dimension();
        let n = dim.size();
        Self::from_vec_dim(dim, (0..n).map(|_| S::Elem::default()).collect())
    }
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(shape: Sh, v: Vec<S::Elem>) -> Result<Self, ShapeError> {
        let dim = shape.into_dimension();
        if dim.size() != v.len() {
            return Err(ShapeError);
        }
        Ok(Self::from_vec_dim(dim, v))
    }
    pub fn from_shape_fn<Sh: ShapeBuilder<Dim = D>, F: FnMut(D::Pattern) -> S::Elem>(shape: Sh, mut f: F) -> Self {
        let dim = shape.into_dimension();
        let n = dim.size();
        let mut idx = zero_index(&dim);
        let v = (0..n)
            .map(|_| {
                let r = f(idx.clone().into_pattern());
                next_index(dim.slice(), idx.slice_mut());
                r
            })
            .collect();
        Self::from_vec_dim(dim, v)
    }
}
impl<S: DataOwned> ArrayBase<S, Ix1> {
    pub fn from_vec(v: Vec<S::Elem>) -> Self {
        Self::from_vec_dim(Dim([v.len()]), v)
    }
    pub fn from_iter<I: IntoIterator<Item = S::Elem>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
    pub fn linspace(a: S::Elem, b: S::Elem, n: usize) -> Self
    where
        S::Elem: num_traits::Float,
    {
        let num = |i: usize| <S::Elem as num_traits::NumCast>::from(i).unwrap();
        let step = (b - a) / num(n.max(2) - 1);
        Self::from_vec((0..n).map(|i| a + step * num(i)).collect())
    }
}
impl<A, D: Dimension> Array<A, D> {
    pub fn into_raw_vec(self) -> Vec<A> {
        self.data.0
    }
}
impl<S: DataOwned> ArrayBase<S, Ix2> {
    pub fn eye(n: usize) -> Self
    where
        S::Elem: Clone + Zero + One,
    {
        Self::from_shape_fn((n, n), |(i, j)| if i == j { S::Elem::one() } else { S::Elem::zero() })
    }
}
impl<A> std::iter::FromIterator<A> for Array1<A> {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Array1::from_vec(it.into_iter().collect())
    }
}
impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self {
        Array1::from_vec(v)
    }
}
impl<'a, A> From<&'a [A]> for ArrayView1<'a, A> {
    fn from(v: &'a [A]) -> Self {
        ArrayBase { data: ViewRepr(PhantomData), ptr: v.as_ptr() as *mut A, dim: Dim([v.len()]), strides: Dim([1]) }
    }
}
impl<'a, A> From<&'a mut [A]> for ArrayViewMut1<'a, A> {
    fn from(v: &'a mut [A]) -> Self {
        ArrayBase { data: ViewRepr(PhantomData), ptr: v.as_mut_ptr(), dim: Dim([v.len()]), strides: Dim([1]) }
    }
}
pub fn arr1<A: Clone>(v: &[A]) -> Array1<A> {
    Array1::from_vec(v.to_vec())
}
pub fn arr2<A: Clone, const N: usize>(v: &[[A; N]]) -> Array2<A> {
    Array2::from_vec_dim(Dim([v.len(), N]), v.iter().flat_map(|r| r.iter().cloned()).collect())
}
impl<A, const N: usize> From<Vec<[A; N]>> for Array2<A> {
    fn from(v: Vec<[A; N]>) -> Self {
        let n = v.len();
        Array2::from_vec_dim(Dim([n, N]), v.into_iter().flatten().collect())
    }
}
#[macro_export]
macro_rules! array {
    ($([$($x:expr),* $(,)*]),+ $(,)*) => { $crate::Array2::from(vec![$([$($x,)*],)*]) };
    ($($x:expr),* $(,)*) => { $crate::Array1::from(vec![$($x,)*]) };
}

impl<S: DataClone, D: Clone> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        let (data, ptr) = self.data.clone_with(self.ptr);
        ArrayBase { data, ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn len(&self) -> usize {
        self.dim.size()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn ndim(&self) -> usize {
        self.dim.ndim()
    }
    pub fn shape(&self) -> &[usize] {
        self.dim.slice()
    }
    pub fn dim(&self) -> D::Pattern {
        self.dim.clone().into_pattern()
    }
    pub fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    pub fn len_of(&self, a: Axis) -> usize {
        self.dim.slice()[a.0]
    }
    pub fn strides(&self) -> &[isize] {
        let s = self.strides.slice();
        unsafe { std::slice::from_raw_parts(s.as_ptr() as *const isize, s.len()) }
    }

    fn raw_view<'a>(&self) -> ArrayView<'a, S::Elem, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
    fn raw_view_mut<'a>(&mut self) -> ArrayViewMut<'a, S::Elem, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
    fn raw_iter<'a>(&self) -> Iter<'a, S::Elem, D> {
        Iter {
            ptr: self.ptr,
            dim: self.dim.clone(),
            strides: self.strides.clone(),
            idx: zero_index(&self.dim),
            left: self.len(),
            _p: PhantomData,
        }
    }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> {
        self.raw_view()
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        self.raw_view_mut()
    }
    pub fn iter(&self) -> Iter<'_, S::Elem, D> {
        self.raw_iter()
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        IterMut(self.raw_iter(), PhantomData)
    }
    pub fn indexed_iter(&self) -> impl Iterator<Item = (D::Pattern, &S::Elem)> + '_ {
        let mut idx = zero_index(&self.dim);
        let dim = self.dim.clone();
        self.iter().map(move |x| {
            let p = idx.clone().into_pattern();
            next_index(dim.slice(), idx.slice_mut());
            (p, x)
        })
    }
    pub fn to_owned(&self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        Array::from_vec_dim(self.dim.clone(), self.iter().cloned().collect())
    }
    pub fn to_vec(&self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.iter().cloned().collect()
    }
    pub fn get<I: NdIndex<D>>(&self, i: I) -> Option<&S::Elem> {
        i.offset(self.dim.slice(), self.strides.slice()).map(|o| unsafe { &*self.ptr.offset(o) })
    }
    pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> Option<&mut S::Elem>
    where
        S: DataMut,
    {
        i.offset(self.dim.slice(), self.strides.slice()).map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    pub fn swap<I: NdIndex<D>>(&mut self, a: I, b: I)
    where
        S: DataMut,
    {
        let p = a.offset(self.dim.slice(), self.strides.slice()).expect("index out of bounds");
        let q = b.offset(self.dim.slice(), self.strides.slice()).expect("index out of bounds");
        unsafe { std::ptr::swap(self.ptr.offset(p), self.ptr.offset(q)) }
    }
    fn is_standard(&self) -> bool {
        let d = default_strides(&self.dim);
        (0..self.ndim()).all(|i| self.dim.slice()[i] <= 1 || self.strides.slice()[i] == d.slice()[i])
    }
    pub fn as_slice(&self) -> Option<&[S::Elem]> {
        if self.is_standard() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]>
    where
        S: DataMut,
    {
        if self.is_standard() {
            Some(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) })
        } else {
            None
        }
    }

    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        let dim = D2::from_slice(self.dim.slice()).ok_or(ShapeError)?;
        let strides = D2::from_slice(self.strides.slice()).ok_or(ShapeError)?;
        Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides })
    }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> {
        self.into_dimensionality().unwrap()
    }
    pub fn reversed_axes(mut self) -> Self {
        self.dim.slice_mut().reverse();
        self.strides.slice_mut().reverse();
        self
    }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> {
        self.view().reversed_axes()
    }

    fn broadcast_raw<'a, E: Dimension>(&self, to: E) -> Option<ArrayView<'a, S::Elem, E>> {
        let (n, m) = (self.ndim(), to.ndim());
        if n > m {
            return None;
        }
        let mut strides = zero_index(&to);
        for i in 0..n {
            let (have, want) = (self.dim.slice()[n - 1 - i], to.slice()[m - 1 - i]);
            strides.slice_mut()[m - 1 - i] = if have == want {
                self.strides.slice()[n - 1 - i]
            } else if have == 1 {
                0
            } else {
                return None;
            };
        }
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: to, strides })
    }
    pub fn broadcast<E: IntoDimension>(&self, dim: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        self.broadcast_raw(dim.into_dimension())
    }

    fn remove_axis(&self, axis: Axis, index: usize) -> (*mut S::Elem, D::Smaller, D::Smaller) {
        assert!(index < self.len_of(axis), "index out of bounds");
        let keep = |d: &D| {
            let v: Vec<usize> = d.slice().iter().enumerate().filter(|(i, _)| *i != axis.0).map(|(_, x)| *x).collect();
            D::Smaller::from_slice(&v).expect("dimension")
        };
        let o = index as isize * self.strides.slice()[axis.0] as isize;
        (unsafe { self.ptr.offset(o) }, keep(&self.dim), keep(&self.strides))
    }
    pub fn index_axis(&self, axis: Axis, index: usize) -> ArrayView<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        let (ptr, dim, strides) = self.remove_axis(axis, index);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }
    pub fn index_axis_mut(&mut self, axis: Axis, index: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        let (ptr, dim, strides) = self.remove_axis(axis, index);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }
    pub fn subview(&self, axis: Axis, index: usize) -> ArrayView<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis(axis, index)
    }

    fn cut(&self, axis: usize, sl: Slice, ptr: &mut *mut S::Elem, dim: &mut D, strides: &mut D) {
        let len = self.dim.slice()[axis];
        let abs = |i: isize| -> usize {
            let j = if i < 0 { i + len as isize } else { i };
            assert!(j >= 0 && j as usize <= len, "slice index {} out of bounds (length {})", i, len);
            j as usize
        };
        let start = abs(sl.start);
        let end = sl.end.map_or(len, abs);
        let m = end.saturating_sub(start);
        let end = start + m;
        assert!(sl.step != 0, "slice step 0");
        let s = self.strides.slice()[axis] as isize;
        // with a negative step the elements are taken from the back
        let first = if sl.step < 0 && m > 0 { end - 1 } else { start };
        let a = sl.step.unsigned_abs();
        dim.slice_mut()[axis] = m.div_ceil(a);
        strides.slice_mut()[axis] = (s * sl.step) as usize;
        if m > 0 {
            *ptr = unsafe { ptr.offset(first as isize * s) };
        }
    }
    fn sliced_axis(&self, axis: Axis, sl: Slice) -> (*mut S::Elem, D, D) {
        let (mut p, mut d, mut s) = (self.ptr, self.dim.clone(), self.strides.clone());
        self.cut(axis.0, sl, &mut p, &mut d, &mut s);
        (p, d, s)
    }
    pub fn slice_axis(&self, axis: Axis, sl: Slice) -> ArrayView<'_, S::Elem, D> {
        let (ptr, dim, strides) = self.sliced_axis(axis, sl);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }
    pub fn slice_axis_mut(&mut self, axis: Axis, sl: Slice) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        let (ptr, dim, strides) = self.sliced_axis(axis, sl);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }
    fn sliced<Do: Dimension>(&self, info: &SliceInfo<Do>) -> (*mut S::Elem, Do, Do) {
        assert_eq!(info.items.len(), self.ndim(), "number of axes");
        let (mut p, mut d, mut s) = (self.ptr, self.dim.clone(), self.strides.clone());
        let (mut od, mut os) = (vec![], vec![]);
        for (i, it) in info.items.iter().enumerate() {
            match it {
                SliceOrIndex::Slice(sl) => {
                    self.cut(i, *sl, &mut p, &mut d, &mut s);
                    od.push(d.slice()[i]);
                    os.push(s.slice()[i]);
                }
                SliceOrIndex::Index(k) => {
                    let len = self.dim.slice()[i];
                    let k = if *k < 0 { *k + len as isize } else { *k };
                    assert!(k >= 0 && (k as usize) < len, "index out of bounds");
                    p = unsafe { p.offset(k * self.strides.slice()[i] as isize) };
                }
            }
        }
        (p, Do::from_slice(&od).expect("axes"), Do::from_slice(&os).expect("axes"))
    }
    pub fn slice<Do: Dimension>(&self, info: &SliceInfo<Do>) -> ArrayView<'_, S::Elem, Do> {
        let (ptr, dim, strides) = self.sliced(info);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }
    pub fn slice_mut<Do: Dimension>(&mut self, info: &SliceInfo<Do>) -> ArrayViewMut<'_, S::Elem, Do>
    where
        S: DataMut,
    {
        let (ptr, dim, strides) = self.sliced(info);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
    }

    // ---------------------------------------------------------------------------- element-wise work

    pub fn fill(&mut self, x: S::Elem)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for v in self.iter_mut() {
            *v = x.clone();
        }
    }
    pub fn zip_mut_with<B, S2: Data<Elem = B>, E: Dimension, F: FnMut(&mut S::Elem, &B)>(&mut self, rhs: &ArrayBase<S2, E>, mut f: F)
    where
        S: DataMut,
    {
        let r = rhs.broadcast_raw(self.dim.clone()).unwrap_or_else(|| {
            panic!("ndarray: could not broadcast array from shape: {:?} to: {:?}", rhs.shape(), self.shape())
        });
        for (a, b) in self.iter_mut().zip(r.iter()) {
            f(a, b);
        }
    }
    pub fn assign<S2: Data<Elem = S::Elem>, E: Dimension>(&mut self, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.zip_mut_with(rhs, |a, b| *a = b.clone());
    }
    /// self += alpha * rhs
    pub fn scaled_add<S2: Data<Elem = S::Elem>, E: Dimension>(&mut self, alpha: S::Elem, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S::Elem: Copy + Mul<Output = S::Elem> + Add<Output = S::Elem>,
    {
        self.zip_mut_with(rhs, move |a, &b| *a = *a + alpha * b);
    }
    pub fn map<'a, B, F: FnMut(&'a S::Elem) -> B>(&'a self, f: F) -> Array<B, D>
    where
        S::Elem: 'a,
    {
        Array::from_vec_dim(self.dim.clone(), self.iter().map(f).collect())
    }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D>
    where
        S::Elem: Clone,
    {
        self.map(move |x| f(x.clone()))
    }
    pub fn mapv_inplace<F: FnMut(S::Elem) -> S::Elem>(&mut self, mut f: F)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for v in self.iter_mut() {
            *v = f(v.clone());
        }
    }
    pub fn map_inplace<F: FnMut(&mut S::Elem)>(&mut self, f: F)
    where
        S: DataMut,
    {
        self.iter_mut().for_each(f);
    }
    pub fn mapv_into<F: FnMut(S::Elem) -> S::Elem>(mut self, f: F) -> Self
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.mapv_inplace(f);
        self
    }
    pub fn fold<'a, B, F: FnMut(B, &'a S::Elem) -> B>(&'a self, init: B, f: F) -> B
    where
        S::Elem: 'a,
    {
        self.iter().fold(init, f)
    }
    pub fn sum(&self) -> S::Elem
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
    {
        self.iter().fold(S::Elem::zero(), |a, x| a + x.clone())
    }
    pub fn sum_axis(&self, axis: Axis) -> Array<S::Elem, D::Smaller>
    where
        S::Elem: Clone + Zero + Add<Output = S::Elem>,
        D: RemoveAxis,
    {
        let n = self.len_of(axis);
        let shape: Vec<usize> =
            self.dim.slice().iter().enumerate().filter(|(i, _)| *i != axis.0).map(|(_, x)| *x).collect();
        let dim = D::Smaller::from_slice(&shape).expect("dimension");
        let mut res: Array<S::Elem, D::Smaller> = Array::from_vec_dim(dim.clone(), vec![S::Elem::zero(); dim.size()]);
        for i in 0..n {
            res.zip_mut_with(&self.index_axis(axis, i), |a, b| *a = a.clone() + b.clone());
        }
        res
    }

    pub fn genrows(&self) -> Lanes<'_, S::Elem, D::Smaller> {
        let n = self.ndim();
        assert!(n > 0);
        let d = D::Smaller::from_slice(&self.dim.slice()[..n - 1]).expect("dimension");
        let s = D::Smaller::from_slice(&self.strides.slice()[..n - 1]).expect("dimension");
        Lanes(LaneData {
            ptr: self.ptr,
            dim: d,
            strides: s,
            len: self.dim.slice()[n - 1],
            stride: self.strides.slice()[n - 1],
            _p: PhantomData,
        }, PhantomData)
    }
    pub fn genrows_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        LanesMut(self.genrows().0, PhantomData)
    }
    pub fn rows(&self) -> Lanes<'_, S::Elem, D::Smaller> {
        self.genrows()
    }
    pub fn rows_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        self.genrows_mut()
    }
    pub fn axis_iter(&self, axis: Axis) -> impl DoubleEndedIterator<Item = ArrayView<'_, S::Elem, D::Smaller>> + '_
    where
        D: RemoveAxis,
    {
        (0..self.len_of(axis)).map(move |i| self.index_axis(axis, i))
    }
    pub fn outer_iter(&self) -> impl DoubleEndedIterator<Item = ArrayView<'_, S::Elem, D::Smaller>> + '_
    where
        D: RemoveAxis,
    {
        self.axis_iter(Axis(0))
    }
    pub fn axis_iter_mut(&mut self, axis: Axis) -> impl DoubleEndedIterator<Item = ArrayViewMut<'_, S::Elem, D::Smaller>> + '_
    where
        S: DataMut,
        D: RemoveAxis,
    {
        let me = self.raw_view_mut();
        (0..me.len_of(axis)).map(move |i| {
            let (ptr, dim, strides) = me.remove_axis(axis, i);
            ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides }
        })
    }
    pub fn outer_iter_mut(&mut self) -> impl DoubleEndedIterator<Item = ArrayViewMut<'_, S::Elem, D::Smaller>> + '_
    where
        S: DataMut,
        D: RemoveAxis,
    {
        self.axis_iter_mut(Axis(0))
    }
}
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn nrows(&self) -> usize {
        self.dim.0[0]
    }
    pub fn ncols(&self) -> usize {
        self.dim.0[1]
    }
    pub fn row(&self, i: usize) -> ArrayView1<'_, S::Elem> {
        self.index_axis(Axis(0), i)
    }
    pub fn column(&self, i: usize) -> ArrayView1<'_, S::Elem> {
        self.index_axis(Axis(1), i)
    }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(0), i)
    }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(1), i)
    }
    pub fn diag(&self) -> ArrayView1<'_, S::Elem> {
        let n = self.nrows().min(self.ncols());
        let s = self.strides.0[0].wrapping_add(self.strides.0[1]);
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: Dim([n]), strides: Dim([s]) }
    }
}

impl<S: DataMut> ArrayBase<S, Ix2> {
    pub fn diag_mut(&mut self) -> ArrayViewMut1<'_, S::Elem> {
        let n = self.nrows().min(self.ncols());
        let s = self.strides.0[0].wrapping_add(self.strides.0[1]);
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: Dim([n]), strides: Dim([s]) }
    }
}
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn first(&self) -> Option<&S::Elem> {
        self.iter().next()
    }
    pub fn as_ptr(&self) -> *const S::Elem {
        self.ptr
    }
    pub fn into_shape<E: IntoDimension>(self, shape: E) -> Result<ArrayBase<S, E::Dim>, ShapeError> {
        let dim = shape.into_dimension();
        if dim.size() != self.len() || !self.is_standard() {
            return Err(ShapeError);
        }
        let strides = default_strides(&dim);
        Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides })
    }
    pub fn map_mut<'a, B, F: FnMut(&'a mut S::Elem) -> B>(&'a mut self, f: F) -> Array<B, D>
    where
        S: DataMut,
        S::Elem: 'a,
    {
        let dim = self.dim.clone();
        Array::from_vec_dim(dim, self.iter_mut().map(f).collect())
    }
    pub fn all_close<S2: Data<Elem = S::Elem>>(&self, o: &ArrayBase<S2, D>, tol: S::Elem) -> bool
    where
        S::Elem: num_traits::Float,
    {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| num_traits::Float::abs(*a - *b) <= tol)
    }
    pub fn scalar_sum(&self) -> S::Elem
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
    {
        self.sum()
    }
}
impl<S: Data, D: Dimension, I: NdIndex<D>> Index<I> for ArrayBase<S, D> {
    type Output = S::Elem;
    fn index(&self, i: I) -> &S::Elem {
        self.get(i).expect("ndarray: index out of bounds")
    }
}
impl<S: DataMut, D: Dimension, I: NdIndex<D>> IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut S::Elem {
        self.get_mut(i).expect("ndarray: index out of bounds")
    }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type IntoIter = Iter<'a, S::Elem, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type IntoIter = IterMut<'a, S::Elem, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = Iter<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.raw_iter()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type IntoIter = IterMut<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        IterMut(self.raw_iter(), PhantomData)
    }
}
impl<S: Data, S2: Data, D: Dimension> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D>
where
    S::Elem: PartialEq<S2::Elem>,
{
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}

macro_rules! fmt_impl {
    ($($t:ident),*) => { $(impl<S: Data, D: Dimension> fmt::$t for ArrayBase<S, D> where S::Elem: fmt::$t {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            let last = self.shape().last().copied().unwrap_or(1);
            f.write_str("[")?;
            for (i, x) in self.iter().enumerate() {
                if i > 0 {
                    f.write_str(if last > 0 && i % last == 0 { "; " } else { ", " })?;
                }
                fmt::$t::fmt(x, f)?;
            }
            f.write_str("]")
        }
    })* };
}
fmt_impl!(Debug, Display, LowerExp, UpperExp);

// -------------------------------------------------------------------------------------- arithmetic

pub trait ScalarOperand: 'static + Clone {}
macro_rules! scalars {
    ($($t:ty),*) => { $(impl ScalarOperand for $t {})* };
}
scalars!(bool, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, f32, f64);
pub trait LinalgScalar: 'static + Copy + Zero + One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> {}
impl<T> LinalgScalar for T where
    T: 'static + Copy + Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T>
{
}

macro_rules! bin_op {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl<'a, 'b, A, B, S, S2, D, E> $tr<&'b ArrayBase<S2, E>> for &'a ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: Clone,
            S: Data<Elem = A>,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, r: &'b ArrayBase<S2, E>) -> Array<A, D> {
                let mut v = self.to_owned();
                v.zip_mut_with(r, |x, y| *x = x.clone().$f(y.clone()));
                v
            }
        }
        impl<'b, A, B, S, S2, D, E> $tr<&'b ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: Clone,
            S: DataOwned<Elem = A>,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, r: &'b ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip_mut_with(r, |x, y| *x = x.clone().$f(y.clone()));
                self
            }
        }
        impl<A, B, S, S2, D, E> $tr<ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: Clone,
            S: DataOwned<Elem = A>,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, r: ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip_mut_with(&r, |x, y| *x = x.clone().$f(y.clone()));
                self
            }
        }
        impl<'a, A, B, S, D> $tr<B> for &'a ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: ScalarOperand,
            S: Data<Elem = A>,
            D: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, r: B) -> Array<A, D> {
                self.map(|x| x.clone().$f(r.clone()))
            }
        }
        impl<A, B, S, D> $tr<B> for ArrayBase<S, D>
        where
            A: Clone + $tr<B, Output = A>,
            B: ScalarOperand,
            S: DataOwned<Elem = A>,
            D: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, r: B) -> ArrayBase<S, D> {
                self.map_inplace(|x| *x = x.clone().$f(r.clone()));
                self
            }
        }
        impl<'b, A, S, S2, D, E> $tra<&'b ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $tra<A>,
            S: DataMut<Elem = A>,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            fn $fa(&mut self, r: &'b ArrayBase<S2, E>) {
                self.zip_mut_with(r, |x, y| x.$fa(y.clone()));
            }
        }
        impl<A, S, D> $tra<A> for ArrayBase<S, D>
        where
            A: ScalarOperand + $tra<A>,
            S: DataMut<Elem = A>,
            D: Dimension,
        {
            fn $fa(&mut self, r: A) {
                self.map_inplace(|x| x.$fa(r.clone()));
            }
        }
        bin_op!(@left $tr, $f, f64, f32);
    };
    (@left $tr:ident, $f:ident, $($t:ty),*) => { $(
        impl<'a, S: Data<Elem = $t>, D: Dimension> $tr<&'a ArrayBase<S, D>> for $t {
            type Output = Array<$t, D>;
            fn $f(self, r: &'a ArrayBase<S, D>) -> Array<$t, D> {
                r.map(|x| self.$f(*x))
            }
        }
        impl<S: DataOwned<Elem = $t>, D: Dimension> $tr<ArrayBase<S, D>> for $t {
            type Output = ArrayBase<S, D>;
            fn $f(self, mut r: ArrayBase<S, D>) -> ArrayBase<S, D> {
                r.map_inplace(|x| *x = self.$f(*x));
                r
            }
        }
    )* };
}
bin_op!(Add, add, AddAssign, add_assign);
bin_op!(Sub, sub, SubAssign, sub_assign);
bin_op!(Mul, mul, MulAssign, mul_assign);
bin_op!(Div, div, DivAssign, div_assign);
impl<'a, S: Data, D: Dimension> Neg for &'a ArrayBase<S, D>
where
    S::Elem: Clone + Neg<Output = S::Elem>,
{
    type Output = Array<S::Elem, D>;
    fn neg(self) -> Self::Output {
        self.map(|x| -x.clone())
    }
}
impl<S: DataOwned, D: Dimension> Neg for ArrayBase<S, D>
where
    S::Elem: Clone + Neg<Output = S::Elem>,
{
    type Output = Self;
    fn neg(mut self) -> Self {
        self.map_inplace(|x| *x = -x.clone());
        self
    }
}

pub mod linalg {
    use super::*;
    pub trait Dot<Rhs> {
        type Output;
        fn dot(&self, rhs: &Rhs) -> Self::Output;
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1> {
        type Output = A;
        fn dot(&self, r: &ArrayBase<S2, Ix1>) -> A {
            assert_eq!(self.len(), r.len());
            self.iter().zip(r.iter()).fold(A::zero(), |s, (a, b)| s + *a * *b)
        }
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2> {
        type Output = Array<A, Ix1>;
        fn dot(&self, r: &ArrayBase<S2, Ix1>) -> Array<A, Ix1> {
            (0..self.nrows()).map(|i| self.row(i).dot(r)).collect()
        }
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix2> {
        type Output = Array<A, Ix2>;
        fn dot(&self, r: &ArrayBase<S2, Ix2>) -> Array<A, Ix2> {
            Array::from_shape_fn((self.nrows(), r.ncols()), |(i, j)| self.row(i).dot(&r.column(j)))
        }
    }
}
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn dot<R>(&self, r: &R) -> <Self as linalg::Dot<R>>::Output
    where
        Self: linalg::Dot<R>,
    {
        linalg::Dot::dot(self, r)
    }
}

// ----------------------------------------------------------------------------------------- slicing

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice {
        Slice { start, end, step }
    }
    pub fn step_by(self, step: isize) -> Slice {
        Slice { step: self.step * step, ..self }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SliceOrIndex {
    Slice(Slice),
    Index(isize),
}
macro_rules! from_ranges {
    ($($t:ty),*) => { $(
        impl From<Range<$t>> for Slice {
            fn from(r: Range<$t>) -> Slice { Slice { start: r.start as isize, end: Some(r.end as isize), step: 1 } }
        }
        impl From<RangeFrom<$t>> for Slice {
            fn from(r: RangeFrom<$t>) -> Slice { Slice { start: r.start as isize, end: None, step: 1 } }
        }
        impl From<RangeTo<$t>> for Slice {
            fn from(r: RangeTo<$t>) -> Slice { Slice { start: 0, end: Some(r.end as isize), step: 1 } }
        }
        impl From<RangeInclusive<$t>> for Slice {
            fn from(r: RangeInclusive<$t>) -> Slice {
                let e = *r.end() as isize;
                Slice { start: *r.start() as isize, end: if e == -1 { None } else { Some(e + 1) }, step: 1 }
            }
        }
        impl From<RangeToInclusive<$t>> for Slice {
            fn from(r: RangeToInclusive<$t>) -> Slice {
                let e = r.end as isize;
                Slice { start: 0, end: if e == -1 { None } else { Some(e + 1) }, step: 1 }
            }
        }
        impl SliceArg for $t {
            type Out = Drop0;
            fn item(self) -> SliceOrIndex { SliceOrIndex::Index(self as isize) }
        }
        impl SliceArg for Range<$t> { type Out = Keep1; fn item(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
        impl SliceArg for RangeFrom<$t> { type Out = Keep1; fn item(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
        impl SliceArg for RangeTo<$t> { type Out = Keep1; fn item(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
        impl SliceArg for RangeInclusive<$t> { type Out = Keep1; fn item(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
        impl SliceArg for RangeToInclusive<$t> { type Out = Keep1; fn item(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
    )* };
}
from_ranges!(usize, isize, i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Slice {
        Slice { start: 0, end: None, step: 1 }
    }
}
pub struct Drop0;
pub struct Keep1;
pub trait SliceArg {
    type Out;
    fn item(self) -> SliceOrIndex;
}
impl SliceArg for RangeFull {
    type Out = Keep1;
    fn item(self) -> SliceOrIndex {
        SliceOrIndex::Slice(self.into())
    }
}
impl SliceArg for Slice {
    type Out = Keep1;
    fn item(self) -> SliceOrIndex {
        SliceOrIndex::Slice(self)
    }
}
pub trait OutDim {
    type Dim: Dimension;
}
impl OutDim for (Drop0,) {
    type Dim = Ix0;
}
impl OutDim for (Keep1,) {
    type Dim = Ix1;
}
impl OutDim for (Drop0, Drop0) {
    type Dim = Ix0;
}
impl OutDim for (Keep1, Drop0) {
    type Dim = Ix1;
}
impl OutDim for (Drop0, Keep1) {
    type Dim = Ix1;
}
impl OutDim for (Keep1, Keep1) {
    type Dim = Ix2;
}
pub struct SliceInfo<Do> {
    items: Vec<SliceOrIndex>,
    _p: PhantomData<Do>,
}
pub fn slice_info1<A: SliceArg>(a: A) -> SliceInfo<<(A::Out,) as OutDim>::Dim>
where
    (A::Out,): OutDim,
{
    SliceInfo { items: vec![a.item()], _p: PhantomData }
}
pub fn slice_info2<A: SliceArg, B: SliceArg>(a: A, b: B) -> SliceInfo<<(A::Out, B::Out) as OutDim>::Dim>
where
    (A::Out, B::Out): OutDim,
{
    SliceInfo { items: vec![a.item(), b.item()], _p: PhantomData }
}
#[macro_export]
macro_rules! s {
    ($a:expr) => { &$crate::slice_info1($a) };
    ($a:expr;$sa:expr) => { &$crate::slice_info1($crate::Slice::from($a).step_by($sa as isize)) };
    ($a:expr, $b:expr) => { &$crate::slice_info2($a, $b) };
    ($a:expr;$sa:expr, $b:expr) => { &$crate::slice_info2($crate::Slice::from($a).step_by($sa as isize), $b) };
    ($a:expr;$sa:expr, $b:expr;$sb:expr) => {
        &$crate::slice_info2($crate::Slice::from($a).step_by($sa as isize), $crate::Slice::from($b).step_by($sb as isize))
    };
    ($a:expr, $b:expr;$sb:expr) => { &$crate::slice_info2($a, $crate::Slice::from($b).step_by($sb as isize)) };
}

// ------------------------------------------------------------------------------- lanes and Zip

struct LaneData<A, D> {
    ptr: *mut A,
    dim: D,
    strides: D,
    len: usize,
    stride: usize,
    _p: PhantomData<A>,
}
impl<A, D: Dimension> LaneData<A, D> {
    fn at(&self, idx: &D) -> *mut A {
        unsafe { self.ptr.offset(off(idx.slice(), self.dim.slice(), self.strides.slice()).unwrap()) }
    }
}
pub struct Lanes<'a, A: 'a, D>(LaneData<A, D>, PhantomData<&'a A>);
pub struct LanesMut<'a, A: 'a, D>(LaneData<A, D>, PhantomData<&'a mut A>);

pub struct LanesIter<'a, A, D> {
    l: LaneData<A, D>,
    idx: D,
    left: usize,
    _p: PhantomData<&'a A>,
}
pub struct LanesIterMut<'a, A, D>(LanesIter<'a, A, D>, PhantomData<&'a mut A>);
impl<'a, A, D: Dimension> LanesIter<'a, A, D> {
    fn step(&mut self) -> Option<*mut A> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let p = self.l.at(&self.idx);
        next_index(self.l.dim.clone().slice(), self.idx.slice_mut());
        Some(p)
    }
}
impl<'a, A, D: Dimension> Iterator for LanesIter<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    fn next(&mut self) -> Option<Self::Item> {
        self.step().map(|ptr| ArrayBase { data: ViewRepr(PhantomData), ptr, dim: Dim([self.l.len]), strides: Dim([self.l.stride]) })
    }
}
impl<'a, A, D: Dimension> Iterator for LanesIterMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    fn next(&mut self) -> Option<Self::Item> {
        let (n, s) = (self.0.l.len, self.0.l.stride);
        self.0.step().map(|ptr| ArrayBase { data: ViewRepr(PhantomData), ptr, dim: Dim([n]), strides: Dim([s]) })
    }
}
impl<'a, A, D: Dimension> IntoIterator for Lanes<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    type IntoIter = LanesIter<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        let (idx, left) = (zero_index(&self.0.dim), self.0.dim.size());
        LanesIter { l: self.0, idx, left, _p: PhantomData }
    }
}
impl<'a, A, D: Dimension> IntoIterator for LanesMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    type IntoIter = LanesIterMut<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        let (idx, left) = (zero_index(&self.0.dim), self.0.dim.size());
        LanesIterMut(LanesIter { l: self.0, idx, left, _p: PhantomData }, PhantomData)
    }
}

pub trait NdProducer {
    type Item;
    type Dim: Dimension;
    fn prod_dim(&self) -> Self::Dim;
    fn item(&mut self, idx: &Self::Dim) -> Self::Item;
}
impl<'a, A, D: Dimension> NdProducer for ArrayView<'a, A, D> {
    type Item = &'a A;
    type Dim = D;
    fn prod_dim(&self) -> D {
        self.dim.clone()
    }
    fn item(&mut self, idx: &D) -> &'a A {
        unsafe { &*self.ptr.offset(off(idx.slice(), self.dim.slice(), self.strides.slice()).unwrap()) }
    }
}
impl<'a, A, D: Dimension> NdProducer for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type Dim = D;
    fn prod_dim(&self) -> D {
        self.dim.clone()
    }
    fn item(&mut self, idx: &D) -> &'a mut A {
        unsafe { &mut *self.ptr.offset(off(idx.slice(), self.dim.slice(), self.strides.slice()).unwrap()) }
    }
}
impl<'a, A, D: Dimension> NdProducer for Lanes<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    type Dim = D;
    fn prod_dim(&self) -> D {
        self.0.dim.clone()
    }
    fn item(&mut self, idx: &D) -> Self::Item {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.0.at(idx), dim: Dim([self.0.len]), strides: Dim([self.0.stride]) }
    }
}
impl<'a, A, D: Dimension> NdProducer for LanesMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    type Dim = D;
    fn prod_dim(&self) -> D {
        self.0.dim.clone()
    }
    fn item(&mut self, idx: &D) -> Self::Item {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.0.at(idx), dim: Dim([self.0.len]), strides: Dim([self.0.stride]) }
    }
}
pub struct Indices<D>(D);
impl<D: Dimension> NdProducer for Indices<D> {
    type Item = D::Pattern;
    type Dim = D;
    fn prod_dim(&self) -> D {
        self.0.clone()
    }
    fn item(&mut self, idx: &D) -> D::Pattern {
        idx.clone().into_pattern()
    }
}
pub trait IntoNdProducer {
    type Item;
    type Dim: Dimension;
    type Output: NdProducer<Item = Self::Item, Dim = Self::Dim>;
    fn into_producer(self) -> Self::Output;
}
impl<P: NdProducer> IntoNdProducer for P {
    type Item = P::Item;
    type Dim = P::Dim;
    type Output = P;
    fn into_producer(self) -> P {
        self
    }
}
impl<'a, S: Data, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type Dim = D;
    type Output = ArrayView<'a, S::Elem, D>;
    fn into_producer(self) -> Self::Output {
        self.view()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type Dim = D;
    type Output = ArrayViewMut<'a, S::Elem, D>;
    fn into_producer(self) -> Self::Output {
        self.view_mut()
    }
}

#[derive(Debug, Clone, Copy)]
pub enum FoldWhile<T> {
    Continue(T),
    Done(T),
}
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T {
        match self {
            FoldWhile::Continue(x) | FoldWhile::Done(x) => x,
        }
    }
    pub fn is_done(&self) -> bool {
        matches!(self, FoldWhile::Done(_))
    }
}

pub struct Zip<P, D> {
    parts: P,
    dim: D,
}
impl<P: NdProducer> Zip<(P,), P::Dim> {
    pub fn from<IP: IntoNdProducer<Output = P, Dim = P::Dim, Item = P::Item>>(p: IP) -> Self {
        let p = p.into_producer();
        let dim = p.prod_dim();
        Zip { parts: (p,), dim }
    }
}
impl<P: NdProducer> Zip<(Indices<P::Dim>, P), P::Dim> {
    pub fn indexed<IP: IntoNdProducer<Output = P, Dim = P::Dim, Item = P::Item>>(p: IP) -> Self {
        let p = p.into_producer();
        let dim = p.prod_dim();
        Zip { parts: (Indices(dim.clone()), p), dim }
    }
}
macro_rules! zip_impl {
    (@work $($p:ident $i:tt),*) => {
        #[allow(non_snake_case)]
        impl<D: Dimension, $($p: NdProducer<Dim = D>),*> Zip<($($p,)*), D> {
            pub fn fold_while<Acc, F>(mut self, acc: Acc, mut f: F) -> FoldWhile<Acc>
            where F: FnMut(Acc, $($p::Item),*) -> FoldWhile<Acc> {
                let mut idx = zero_index(&self.dim);
                let mut acc = acc;
                for _ in 0..self.dim.size() {
                    match f(acc, $(self.parts.$i.item(&idx)),*) {
                        FoldWhile::Continue(a) => acc = a,
                        d => return d,
                    }
                    next_index(self.dim.slice(), idx.slice_mut());
                }
                FoldWhile::Continue(acc)
            }
            pub fn apply<F>(mut self, mut f: F) where F: FnMut($($p::Item),*) {
                let mut idx = zero_index(&self.dim);
                for _ in 0..self.dim.size() {
                    f($(self.parts.$i.item(&idx)),*);
                    next_index(self.dim.slice(), idx.slice_mut());
                }
            }
            pub fn for_each<F>(self, f: F) where F: FnMut($($p::Item),*) {
                self.apply(f)
            }
            pub fn all<F>(mut self, mut f: F) -> bool where F: FnMut($($p::Item),*) -> bool {
                let mut idx = zero_index(&self.dim);
                for _ in 0..self.dim.size() {
                    if !f($(self.parts.$i.item(&idx)),*) {
                        return false;
                    }
                    next_index(self.dim.slice(), idx.slice_mut());
                }
                true
            }
        }
    };
    (@and $($p:ident $i:tt),*) => {
        impl<D: Dimension, $($p: NdProducer<Dim = D>),*> Zip<($($p,)*), D> {
            pub fn and<IP: IntoNdProducer<Dim = D>>(self, p: IP) -> Zip<($($p,)* IP::Output,), D> {
                let p = p.into_producer();
                assert_eq!(p.prod_dim(), self.dim, "Zip: shapes differ");
                Zip { parts: ($(self.parts.$i,)* p,), dim: self.dim }
            }
        }
    };
}
zip_impl!(@work P0 0);
zip_impl!(@work P0 0, P1 1);
zip_impl!(@work P0 0, P1 1, P2 2);
zip_impl!(@work P0 0, P1 1, P2 2, P3 3);
zip_impl!(@work P0 0, P1 1, P2 2, P3 3, P4 4);
zip_impl!(@work P0 0, P1 1, P2 2, P3 3, P4 4, P5 5);
zip_impl!(@work P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6);
zip_impl!(@and P0 0);
zip_impl!(@and P0 0, P1 1);
zip_impl!(@and P0 0, P1 1, P2 2);
zip_impl!(@and P0 0, P1 1, P2 2, P3 3);
zip_impl!(@and P0 0, P1 1, P2 2, P3 3, P4 4);
zip_impl!(@and P0 0, P1 1, P2 2, P3 3, P4 4, P5 5);

pub mod prelude {
    pub use crate::{
        arr1, arr2, array, s, Array, Array0, Array1, Array2, Array3, ArrayBase, ArrayD, ArrayView, ArrayView1,
        ArrayView2, ArrayViewMut, ArrayViewMut1, ArrayViewMut2, Axis, Dim, Dimension, Ix0, Ix1, Ix2, Ix3, IxDyn,
        NdProducer, ShapeBuilder,
    };
}
