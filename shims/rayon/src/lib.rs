//! A stand-in for rayon in which the scheduler belongs to the simulator. A parallel operation over
//! n items is split into chunks, the chunks are dealt to virtual workers, and a seeded generator
//! decides which worker runs its next item, until all are done. Results keep their index, as in
//! rayon. Without a seed the order is sequential. The unit of interleaving is one item's closure.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::Hash;
use std::rc::Rc;

pub mod sim {
    use super::*;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Stats {
        pub parallel_ops: u64,
        pub tasks: u64,
        pub switches: u64,
        pub schedule_hash: u64,
    }
    thread_local! {
        pub(crate) static STATE: Cell<Option<(u64, usize)>> = Cell::new(None);
        pub(crate) static STATS: Cell<Stats> = Cell::new(Stats { parallel_ops: 0, tasks: 0, switches: 0, schedule_hash: 0 });
    }
    /// Seeds the scheduler of this thread with so many virtual workers (None: sequential).
    pub fn set_schedule(s: Option<(u64, usize)>) {
        STATE.with(|c| c.set(s));
        STATS.with(|c| c.set(Stats::default()));
    }
    pub fn stats() -> Stats {
        STATS.with(|c| c.get())
    }
    pub(crate) fn next() -> u64 {
        STATE.with(|c| {
            let Some((s, w)) = c.get() else { return 0 };
            let s = s.wrapping_add(0x9E3779B97F4A7C15);
            c.set(Some((s, w)));
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        })
    }
    pub fn workers() -> usize {
        STATE.with(|c| c.get().map(|x| x.1).unwrap_or(1))
    }
    /// The order in which the n items of one operation run.
    pub(crate) fn order(n: usize) -> Vec<usize> {
        let w = workers().max(1);
        let seeded = STATE.with(|c| c.get().is_some());
        let mut st = stats();
        st.parallel_ops += 1;
        st.tasks += n as u64;
        if !seeded || n < 2 {
            STATS.with(|c| c.set(st));
            return (0..n).collect();
        }
        // chunks of a seeded size, dealt out to workers, run to completion item by item
        let grain = 1 + (next() as usize) % (n.div_ceil(w)).max(1);
        let mut chunks: VecDeque<(usize, usize)> = (0..n).step_by(grain).map(|a| (a, (a + grain).min(n))).collect();
        // stealing takes from either end
        let mut running: Vec<Option<(usize, usize)>> = vec![None; w];
        let mut out = Vec::with_capacity(n);
        let mut last = usize::MAX;
        while out.len() < n {
            let k = (next() as usize) % w;
            if running[k].is_none() {
                running[k] = if next() & 1 == 0 { chunks.pop_front() } else { chunks.pop_back() };
            }
            if let Some((a, b)) = running[k] {
                out.push(a);
                if last != k {
                    st.switches += 1;
                    last = k;
                }
                st.schedule_hash = (st.schedule_hash ^ a as u64).wrapping_mul(0x100000001b3).rotate_left(7);
                running[k] = if a + 1 < b { Some((a + 1, b)) } else { None };
            }
        }
        STATS.with(|c| c.set(st));
        out
    }
}

type Emit<'a, T> = dyn Fn(usize, &mut dyn FnMut(T)) + 'a;
/// `len` base items; running base item i emits any number of results.
pub struct Par<'a, T> {
    len: usize,
    run: Rc<Emit<'a, T>>,
}
impl<'a, T> Clone for Par<'a, T> {
    fn clone(&self) -> Self {
        Par { len: self.len, run: self.run.clone() }
    }
}

impl<'a, T: 'a> Par<'a, T> {
    fn indexed(len: usize, f: impl Fn(usize) -> T + 'a) -> Self {
        Par { len, run: Rc::new(move |i, out| out(f(i))) }
    }
    fn from_vec(v: Vec<T>) -> Self {
        let len = v.len();
        let cells: Vec<RefCell<Option<T>>> = v.into_iter().map(|x| RefCell::new(Some(x))).collect();
        Par::indexed(len, move |i| cells[i].borrow_mut().take().expect("item consumed twice"))
    }
    fn exec(self) -> Vec<T> {
        let mut slots: Vec<Vec<T>> = (0..self.len).map(|_| Vec::new()).collect();
        for i in sim::order(self.len) {
            let s = &mut slots[i];
            (self.run)(i, &mut |x| s.push(x));
        }
        slots.into_iter().flatten().collect()
    }
    pub fn map<R: 'a>(self, f: impl Fn(T) -> R + 'a) -> Par<'a, R> {
        let run = self.run;
        Par { len: self.len, run: Rc::new(move |i, out| run(i, &mut |x| out(f(x)))) }
    }
    pub fn map_init<S, R: 'a>(self, init: impl Fn() -> S + 'a, f: impl Fn(&mut S, T) -> R + 'a) -> Par<'a, R> {
        self.map(move |x| f(&mut init(), x))
    }
    pub fn inspect(self, f: impl Fn(&T) + 'a) -> Par<'a, T> {
        self.map(move |x| {
            f(&x);
            x
        })
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + 'a) -> Par<'a, T> {
        let run = self.run;
        Par { len: self.len, run: Rc::new(move |i, out| run(i, &mut |x| if f(&x) { out(x) })) }
    }
    pub fn filter_map<R: 'a>(self, f: impl Fn(T) -> Option<R> + 'a) -> Par<'a, R> {
        let run = self.run;
        Par { len: self.len, run: Rc::new(move |i, out| run(i, &mut |x| if let Some(y) = f(x) { out(y) })) }
    }
    pub fn flat_map<R: IntoParallelIterator<'a>>(self, f: impl Fn(T) -> R + 'a) -> Par<'a, R::Item>
    where
        R::Item: 'a,
    {
        let run = self.run;
        Par { len: self.len, run: Rc::new(move |i, out| run(i, &mut |x| f(x).into_par_iter().exec().into_iter().for_each(&mut *out))) }
    }
    pub fn flat_map_iter<R: IntoIterator + 'a>(self, f: impl Fn(T) -> R + 'a) -> Par<'a, R::Item>
    where
        R::Item: 'a,
    {
        let run = self.run;
        Par { len: self.len, run: Rc::new(move |i, out| run(i, &mut |x| f(x).into_iter().for_each(&mut *out))) }
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        let run = self.run;
        Par { len: self.len, run: Rc::new(move |i, out| run(i, &mut |x| out((i, x)))) }
    }
    pub fn zip<Z: IntoParallelIterator<'a>>(self, o: Z) -> Par<'a, (T, Z::Item)>
    where
        Z::Item: 'a,
    {
        let o = o.into_par_iter();
        let (ra, rb) = (self.run, o.run);
        Par {
            len: self.len.min(o.len),
            run: Rc::new(move |i, out| {
                let mut a = None;
                let mut b = None;
                ra(i, &mut |x| a = Some(x));
                rb(i, &mut |x| b = Some(x));
                if let (Some(a), Some(b)) = (a, b) {
                    out((a, b))
                }
            }),
        }
    }
    pub fn chain(self, o: Par<'a, T>) -> Par<'a, T> {
        let (n, ra, rb) = (self.len, self.run, o.run);
        Par { len: n + o.len, run: Rc::new(move |i, out| if i < n { ra(i, out) } else { rb(i - n, out) }) }
    }
    pub fn take(self, n: usize) -> Par<'a, T> {
        Par { len: self.len.min(n), run: self.run }
    }
    pub fn skip(self, n: usize) -> Par<'a, T> {
        let n = n.min(self.len);
        let run = self.run;
        Par { len: self.len - n, run: Rc::new(move |i, out| run(i + n, out)) }
    }
    pub fn rev(self) -> Par<'a, T> {
        let (n, run) = (self.len, self.run);
        Par { len: n, run: Rc::new(move |i, out| run(n - 1 - i, out)) }
    }
    pub fn step_by(self, k: usize) -> Par<'a, T> {
        let run = self.run;
        Par { len: self.len.div_ceil(k), run: Rc::new(move |i, out| run(i * k, out)) }
    }
    pub fn with_min_len(self, _n: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _n: usize) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn for_each(self, f: impl Fn(T) + 'a) {
        self.map(f).exec();
    }
    pub fn try_for_each<E: 'a>(self, f: impl Fn(T) -> Result<(), E> + 'a) -> Result<(), E> {
        self.map(f).collect()
    }
    pub fn for_each_with<S>(self, s: S, f: impl Fn(&mut S, T)) {
        let mut s = s;
        let n = self.len;
        for i in sim::order(n) {
            (self.run)(i, &mut |x| f(&mut s, x));
        }
    }
    pub fn collect<C: FromParallelIterator<T>>(self) -> C {
        C::from_items(self.exec())
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.exec();
    }
    pub fn unzip<A: 'a, B: 'a, CA: Default + Extend<A>, CB: Default + Extend<B>>(self) -> (CA, CB)
    where
        T: Into<(A, B)>,
    {
        self.exec().into_iter().map(|x| x.into()).unzip()
    }
    pub fn count(self) -> usize {
        self.exec().len()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.exec().into_iter().sum()
    }
    pub fn product<S: std::iter::Product<T>>(self) -> S {
        self.exec().into_iter().product()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.exec().into_iter().min()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.exec().into_iter().max()
    }
    pub fn min_by_key<K: Ord>(self, f: impl Fn(&T) -> K) -> Option<T> {
        self.exec().into_iter().min_by_key(f)
    }
    pub fn max_by_key<K: Ord>(self, f: impl Fn(&T) -> K) -> Option<T> {
        self.exec().into_iter().max_by_key(f)
    }
    pub fn min_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.exec().into_iter().min_by(f)
    }
    pub fn max_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.exec().into_iter().max_by(f)
    }
    pub fn partition<A: Default + Extend<T>>(self, f: impl Fn(&T) -> bool) -> (A, A) {
        self.exec().into_iter().partition(f)
    }
    pub fn for_each_init<S>(self, init: impl Fn() -> S + 'a, f: impl Fn(&mut S, T) + 'a)
    where
        S: 'a,
    {
        self.map_init(init, f).exec();
    }
    pub fn find_map_first<R: 'a>(self, f: impl Fn(T) -> Option<R> + 'a) -> Option<R> {
        self.map(f).find_first(|x| x.is_some()).flatten()
    }
    pub fn find_map_any<R: 'a>(self, f: impl Fn(T) -> Option<R> + 'a) -> Option<R> {
        self.map(f).find_any(|x| x.is_some()).flatten()
    }
    pub fn all(self, f: impl Fn(T) -> bool + 'a) -> bool {
        self.map(f).exec().into_iter().all(|x| x)
    }
    pub fn any(self, f: impl Fn(T) -> bool + 'a) -> bool {
        self.map(f).exec().into_iter().any(|x| x)
    }
    /// rayon splits the sequence at arbitrary points; the operation must be associative.
    pub fn reduce(self, id: impl Fn() -> T, op: impl Fn(T, T) -> T) -> T {
        let items = self.exec();
        split_reduce(items, &id, &op)
    }
    pub fn reduce_with(self, op: impl Fn(T, T) -> T) -> Option<T> {
        self.exec().into_iter().reduce(op)
    }
    pub fn fold<S: 'a>(self, id: impl Fn() -> S + 'a, f: impl Fn(S, T) -> S + 'a) -> Par<'a, S> {
        let items = self.exec();
        let n = items.len();
        let grain = if n == 0 { 1 } else { 1 + (sim::next() as usize) % n };
        let mut out = vec![];
        let mut it = items.into_iter().peekable();
        while it.peek().is_some() {
            let mut s = id();
            for _ in 0..grain {
                match it.next() {
                    Some(x) => s = f(s, x),
                    None => break,
                }
            }
            out.push(s);
        }
        Par::from_vec(out)
    }
    /// Lazy: virtual workers scan their own parts, and whoever the scheduler lets find first wins.
    pub fn find_any(self, f: impl Fn(&T) -> bool) -> Option<T> {
        let w = sim::workers().max(1);
        let n = self.len;
        let part = n.div_ceil(w).max(1);
        // scan ranges near the start first, as an unbounded range is never exhausted
        let mut pos: Vec<(usize, usize)> = (0..w).map(|k| (k.saturating_mul(part).min(n), (k + 1).saturating_mul(part).min(n))).collect();
        loop {
            let live: Vec<usize> = (0..w).filter(|k| pos[*k].0 < pos[*k].1).collect();
            if live.is_empty() {
                return None;
            }
            let k = live[(sim::next() as usize) % live.len()];
            let i = pos[k].0;
            pos[k].0 += 1;
            let mut hit = None;
            (self.run)(i, &mut |x| {
                if hit.is_none() && f(&x) {
                    hit = Some(x)
                }
            });
            if hit.is_some() {
                return hit;
            }
        }
    }
    pub fn find_first(self, f: impl Fn(&T) -> bool) -> Option<T> {
        for i in 0..self.len {
            let mut hit = None;
            (self.run)(i, &mut |x| {
                if hit.is_none() && f(&x) {
                    hit = Some(x)
                }
            });
            if hit.is_some() {
                return hit;
            }
        }
        None
    }
    pub fn position_any(self, f: impl Fn(T) -> bool + 'a) -> Option<usize> {
        self.map(f).enumerate().find_any(|x| x.1).map(|x| x.0)
    }
    pub fn position_first(self, f: impl Fn(T) -> bool + 'a) -> Option<usize> {
        self.map(f).enumerate().find_first(|x| x.1).map(|x| x.0)
    }
    pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
        let mut out = vec![];
        let mut cur = vec![];
        for x in self.exec() {
            cur.push(x);
            if cur.len() == n {
                out.push(std::mem::take(&mut cur));
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        Par::from_vec(out)
    }
}
impl<'a, A: 'a, B: 'a> Par<'a, (A, B)> {
    pub fn unzip_pair(self) -> (Vec<A>, Vec<B>) {
        self.exec().into_iter().unzip()
    }
}
impl<'a, T: Clone + 'a> Par<'a, &'a T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
    pub fn copied(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
}
fn split_reduce<T>(items: Vec<T>, id: &dyn Fn() -> T, op: &dyn Fn(T, T) -> T) -> T {
    let n = items.len();
    if n < 2 {
        return items.into_iter().fold(id(), op);
    }
    let cut = 1 + (sim::next() as usize) % (n - 1);
    let mut a = items;
    let b = a.split_off(cut);
    let l = split_reduce(a, id, op);
    let r = split_reduce(b, id, op);
    op(l, r)
}

pub trait FromParallelIterator<T>: Sized {
    fn from_items(v: Vec<T>) -> Self;
}
impl<T> FromParallelIterator<T> for Vec<T> {
    fn from_items(v: Vec<T>) -> Self {
        v
    }
}
impl FromParallelIterator<()> for () {
    fn from_items(_: Vec<()>) -> Self {}
}
macro_rules! from_std {
    ($($t:ident: $($b:path),*);*) => {$(
        impl<T $(: $b)* > FromParallelIterator<T> for $t<T> {
            fn from_items(v: Vec<T>) -> Self { v.into_iter().collect() }
        }
    )*};
}
from_std!(VecDeque:; BTreeSet: Ord);
impl<T: Eq + Hash> FromParallelIterator<T> for HashSet<T> {
    fn from_items(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}
impl<K: Eq + Hash, V> FromParallelIterator<(K, V)> for HashMap<K, V> {
    fn from_items(v: Vec<(K, V)>) -> Self {
        v.into_iter().collect()
    }
}
impl<K: Ord, V> FromParallelIterator<(K, V)> for BTreeMap<K, V> {
    fn from_items(v: Vec<(K, V)>) -> Self {
        v.into_iter().collect()
    }
}
impl FromParallelIterator<char> for String {
    fn from_items(v: Vec<char>) -> Self {
        v.into_iter().collect()
    }
}
impl<T, C: FromParallelIterator<T>> FromParallelIterator<Option<T>> for Option<C> {
    fn from_items(v: Vec<Option<T>>) -> Self {
        Some(C::from_items(v.into_iter().collect::<Option<Vec<T>>>()?))
    }
}
impl<T, E, C: FromParallelIterator<T>> FromParallelIterator<Result<T, E>> for Result<C, E> {
    /// As in rayon, which of several errors is returned depends on the schedule.
    fn from_items(v: Vec<Result<T, E>>) -> Self {
        let mut ok = vec![];
        let mut errs = vec![];
        for r in v {
            match r {
                Ok(x) => ok.push(x),
                Err(e) => errs.push(e),
            }
        }
        if errs.is_empty() {
            return Ok(C::from_items(ok));
        }
        let k = (sim::next() as usize) % errs.len();
        Err(errs.swap_remove(k))
    }
}

pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
impl<T> ParallelIterator for Par<'_, T> {}
impl<T> IndexedParallelIterator for Par<'_, T> {}

pub trait IntoParallelIterator<'a> {
    type Item;
    fn into_par_iter(self) -> Par<'a, Self::Item>;
}
impl<'a, T: 'a> IntoParallelIterator<'a> for Par<'a, T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        self
    }
}
impl<'a, T: 'a> IntoParallelIterator<'a> for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_vec(self)
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a Vec<T> {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::indexed(self.len(), move |i| &self[i])
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::indexed(self.len(), move |i| &self[i])
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a mut Vec<T> {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::from_vec(self.iter_mut().collect())
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a mut [T] {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::from_vec(self.iter_mut().collect())
    }
}
macro_rules! ranges {
    ($($t:ty),*) => {$(
        impl<'a> IntoParallelIterator<'a> for std::ops::Range<$t> {
            type Item = $t;
            fn into_par_iter(self) -> Par<'a, $t> {
                let n = if self.end > self.start { (self.end - self.start) as usize } else { 0 };
                let s = self.start;
                Par::indexed(n, move |i| s + i as $t)
            }
        }
        impl<'a> IntoParallelIterator<'a> for std::ops::RangeInclusive<$t> {
            type Item = $t;
            fn into_par_iter(self) -> Par<'a, $t> {
                let (s, e) = (*self.start(), *self.end());
                let n = if e >= s { ((e - s) as usize).saturating_add(1) } else { 0 };
                Par::indexed(n, move |i| s + i as $t)
            }
        }
    )*};
}
ranges!(u8, u16, u32, u64, usize, i32, i64);

pub trait IntoParallelRefIterator<'a> {
    type Item: 'a;
    fn par_iter(&'a self) -> Par<'a, Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoParallelIterator<'a>,
    <&'a C as IntoParallelIterator<'a>>::Item: 'a,
{
    type Item = <&'a C as IntoParallelIterator<'a>>::Item;
    fn par_iter(&'a self) -> Par<'a, Self::Item> {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: 'a;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
where
    &'a mut C: IntoParallelIterator<'a>,
    <&'a mut C as IntoParallelIterator<'a>>::Item: 'a,
{
    type Item = <&'a mut C as IntoParallelIterator<'a>>::Item;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item> {
        self.into_par_iter()
    }
}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
    fn par_windows(&self, n: usize) -> Par<'_, &[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par::from_vec(self.chunks(n).collect())
    }
    fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
        Par::from_vec(self.windows(n).collect())
    }
}
pub trait ParallelSliceMut<T> {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    fn par_sort(&mut self)
    where
        T: Ord;
    fn par_sort_unstable(&mut self)
    where
        T: Ord;
    fn par_sort_by(&mut self, f: impl Fn(&T, &T) -> std::cmp::Ordering);
    fn par_sort_unstable_by(&mut self, f: impl Fn(&T, &T) -> std::cmp::Ordering);
    fn par_sort_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K);
    fn par_sort_unstable_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K);
    fn par_sort_by_cached_key<K: Ord>(&mut self, f: impl Fn(&T) -> K);
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::from_vec(self.chunks_mut(n).collect())
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.sort()
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.sort_unstable()
    }
    fn par_sort_by(&mut self, f: impl Fn(&T, &T) -> std::cmp::Ordering) {
        self.sort_by(f)
    }
    fn par_sort_unstable_by(&mut self, f: impl Fn(&T, &T) -> std::cmp::Ordering) {
        self.sort_unstable_by(f)
    }
    fn par_sort_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K) {
        self.sort_by_key(f)
    }
    fn par_sort_unstable_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K) {
        self.sort_unstable_by_key(f)
    }
    fn par_sort_by_cached_key<K: Ord>(&mut self, f: impl Fn(&T) -> K) {
        self.sort_by_cached_key(f)
    }
}
pub trait ParallelBridge: Iterator + Sized {
    /// The order of a bridged iterator is lost.
    fn par_bridge<'a>(self) -> Par<'a, Self::Item>
    where
        Self::Item: 'a,
    {
        let mut v: Vec<Option<Self::Item>> = self.map(Some).collect();
        let o = sim::order(v.len());
        Par::from_vec(o.into_iter().map(|i| v[i].take().unwrap()).collect())
    }
}
impl<I: Iterator> ParallelBridge for I {}

pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
    if sim::next() & 1 == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}
pub struct Scope<'s> {
    tasks: RefCell<VecDeque<Box<dyn FnOnce(&Scope<'s>) + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn(&self, f: impl FnOnce(&Scope<'s>) + 's) {
        self.tasks.borrow_mut().push_back(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope { tasks: RefCell::new(VecDeque::new()) };
    let r = f(&s);
    loop {
        let n = s.tasks.borrow().len();
        if n == 0 {
            return r;
        }
        let k = (sim::next() as usize) % n;
        let t = s.tasks.borrow_mut().remove(k).unwrap();
        t(&s);
    }
}
pub fn current_num_threads() -> usize {
    sim::workers()
}
pub fn current_thread_index() -> Option<usize> {
    Some((sim::next() as usize) % sim::workers().max(1))
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder {}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self {}
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool {})
    }
}
pub struct ThreadPool {}
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
}
pub mod iter {
    pub use super::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelIterator,
    };
}
pub mod slice {
    pub use super::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use super::iter::*;
    pub use super::slice::*;
}
