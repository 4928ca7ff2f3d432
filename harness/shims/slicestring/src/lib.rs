pub trait Slice {
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> String;
}
impl Slice for String {
    fn slice<R: std::ops::RangeBounds<usize>>(&self, r: R) -> String {
        use std::ops::Bound::*;
        let n = self.chars().count();
        let a = match r.start_bound() { Included(x) => *x, Excluded(x) => x + 1, Unbounded => 0 };
        let b = match r.end_bound() { Included(x) => x + 1, Excluded(x) => *x, Unbounded => n };
        self.chars().take(b.min(n)).skip(a).collect()
    }
}
