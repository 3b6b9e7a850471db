// Sequential stand-in for the parts of rayon the generated code uses.
pub mod iter {
    pub trait IntoParallelIterator { type Iter; fn into_par_iter(self) -> Self::Iter; }
    impl<T: IntoIterator> IntoParallelIterator for T { type Iter = T::IntoIter; fn into_par_iter(self) -> T::IntoIter { self.into_iter() } }
    pub trait ParallelIterator {}
}
