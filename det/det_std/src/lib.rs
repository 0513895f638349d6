//! `std` whose sources of nondeterminism are choices of the explorer.
//!
//! The environment variable DET_CHOICES lists the alternatives to take, in the
//! order in which the choices come up (0 where the list ends).  The file
//! DET_LOG receives one line per choice: the number of alternatives and what it
//! is about.
pub use ::std::*;
pub mod real { pub use ::std::*; }

mod ctl {
    use ::std::io::Write;
    use ::std::sync::{Mutex, OnceLock};
    struct Ctl { choices: Vec<usize>, pos: usize, log: Option<::std::fs::File> }
    fn ctl() -> &'static Mutex<Ctl> {
        static C: OnceLock<Mutex<Ctl>> = OnceLock::new();
        C.get_or_init(|| Mutex::new(Ctl {
            choices: ::std::env::var("DET_CHOICES").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect(),
            pos: 0,
            log: ::std::env::var("DET_LOG").ok().map(|p| ::std::fs::File::create(p).unwrap()),
        }))
    }
    pub fn choose(n: usize, what: &str) -> usize {
        if n < 2 { return 0; }
        let mut c = ctl().lock().unwrap_or_else(|e| e.into_inner());
        let r = c.choices.get(c.pos).copied().unwrap_or(0);
        c.pos += 1;
        if let Some(l) = &mut c.log { let _ = writeln!(l, "{n}\t{what}"); }
        r % n
    }
    /// Put `v` into any order (every one up to four elements, otherwise all
    /// rotations, forwards and backwards)
    pub fn order<T>(v: Vec<T>, what: &str) -> Vec<T> {
        let n = v.len();
        if n < 2 { return v; }
        let alts = if n <= 4 { (1..=n).product() } else { 2 * n };
        let c = choose(alts, what);
        let mut v = v;
        if n <= 4 {
            let mut c = c;
            let mut out = Vec::with_capacity(n);
            let mut k = n;
            while k > 0 { out.push(v.remove(c % k)); c /= k; k -= 1; }
            out
        } else {
            if c >= n { v.reverse(); }
            v.rotate_left(c % n);
            v
        }
    }
}

pub mod hash {
    pub use ::std::hash::*;
    #[derive(Clone, Debug)]
    pub struct RandomState(u8);
    impl RandomState { pub fn new() -> Self { RandomState(0) } }
    impl Default for RandomState { fn default() -> Self { Self::new() } }
    impl BuildHasher for RandomState {
        type Hasher = ::std::hash::DefaultHasher;
        fn build_hasher(&self) -> Self::Hasher {
            let mut h = ::std::hash::DefaultHasher::new();
            h.write_usize(crate::ctl::choose(2, "random hasher keys"));
            h
        }
    }
}

pub mod collections {
    pub use ::std::collections::*;
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;
    use crate::ctl::order;
    use crate::hash::RandomState;
    use ::std::any::TypeId;
    use ::std::hash::{BuildHasher, DefaultHasher, Hash};

    /// S, but with fixed keys where those would be random.  Then, the order of
    /// iteration is chosen explicitly.
    #[derive(Clone, Default, Debug)]
    pub struct Inner<S>(S);
    pub enum Either<A, B> { A(A), B(B) }
    impl<A: ::std::hash::Hasher, B: ::std::hash::Hasher> ::std::hash::Hasher for Either<A, B> {
        fn finish(&self) -> u64 { match self { Either::A(a) => a.finish(), Either::B(b) => b.finish() } }
        fn write(&mut self, x: &[u8]) { match self { Either::A(a) => a.write(x), Either::B(b) => b.write(x) } }
    }
    fn random<S: 'static>() -> bool { TypeId::of::<S>() == TypeId::of::<RandomState>() }
    impl<S: BuildHasher + 'static> BuildHasher for Inner<S> {
        type Hasher = Either<DefaultHasher, S::Hasher>;
        fn build_hasher(&self) -> Self::Hasher {
            if random::<S>() { Either::A(DefaultHasher::new()) } else { Either::B(self.0.build_hasher()) }
        }
    }
    fn ord<S: 'static, T>(i: impl Iterator<Item = T>) -> ::std::vec::IntoIter<T> {
        let v: Vec<T> = i.collect();
        if random::<S>() { order(v, ::std::any::type_name::<T>()).into_iter() } else { v.into_iter() }
    }

    pub mod hash_map {
        pub use ::std::collections::hash_map::*;
        pub use crate::hash::RandomState;
        use super::*;
        use ::std::collections::HashMap as R;
        pub struct HashMap<K, V, S = RandomState>(R<K, V, Inner<S>>);
        impl<K, V, S> ::std::ops::Deref for HashMap<K, V, S> { type Target = R<K, V, Inner<S>>; fn deref(&self) -> &Self::Target { &self.0 } }
        impl<K, V, S> ::std::ops::DerefMut for HashMap<K, V, S> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
        impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { HashMap(R::with_hasher(Inner(S::default()))) } }
        impl<K, V> HashMap<K, V, RandomState> {
            pub fn new() -> Self { Self::default() }
            pub fn with_capacity(_: usize) -> Self { Self::default() }
        }
        impl<K, V, S: 'static> HashMap<K, V, S> {
            pub fn with_hasher(s: S) -> Self { HashMap(R::with_hasher(Inner(s))) }
            pub fn iter(&self) -> ::std::vec::IntoIter<(&K, &V)> { ord::<S, _>(self.0.iter()) }
            pub fn iter_mut(&mut self) -> ::std::vec::IntoIter<(&K, &mut V)> { ord::<S, _>(self.0.iter_mut()) }
            pub fn keys(&self) -> ::std::vec::IntoIter<&K> { ord::<S, _>(self.0.keys()) }
            pub fn values(&self) -> ::std::vec::IntoIter<&V> { ord::<S, _>(self.0.values()) }
            pub fn values_mut(&mut self) -> ::std::vec::IntoIter<&mut V> { ord::<S, _>(self.0.values_mut()) }
            pub fn into_keys(self) -> ::std::vec::IntoIter<K> { ord::<S, _>(self.0.into_keys()) }
            pub fn into_values(self) -> ::std::vec::IntoIter<V> { ord::<S, _>(self.0.into_values()) }
            pub fn drain(&mut self) -> ::std::vec::IntoIter<(K, V)> { ord::<S, _>(self.0.drain()) }
        }
        impl<K, V, S: 'static> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = ::std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { ord::<S, _>(self.0.into_iter()) } }
        impl<'a, K, V, S: 'static> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = ::std::vec::IntoIter<Self::Item>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
        impl<'a, K, V, S: 'static> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = ::std::vec::IntoIter<Self::Item>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
        impl<K: Eq + Hash, V, S: BuildHasher + Default + 'static> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut r = Self::default(); r.0.extend(i); r } }
        impl<K: Eq + Hash, V, S: BuildHasher + 'static> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.0.extend(i) } }
        impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher + 'static> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) { self.0.extend(i) } }
        impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
        impl<K: Eq + Hash, V: PartialEq, S: BuildHasher + 'static> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<K: Eq + Hash, V: Eq, S: BuildHasher + 'static> Eq for HashMap<K, V, S> { }
        impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap(self.0.clone()) } }
        impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug, S: 'static> ::std::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_map().entries(self.iter()).finish() } }
    }

    pub mod hash_set {
        pub use ::std::collections::hash_set::*;
        use super::*;
        use ::std::collections::HashSet as R;
        pub struct HashSet<T, S = RandomState>(R<T, Inner<S>>);
        impl<T, S> ::std::ops::Deref for HashSet<T, S> { type Target = R<T, Inner<S>>; fn deref(&self) -> &Self::Target { &self.0 } }
        impl<T, S> ::std::ops::DerefMut for HashSet<T, S> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
        impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet(R::with_hasher(Inner(S::default()))) } }
        impl<T> HashSet<T, RandomState> {
            pub fn new() -> Self { Self::default() }
            pub fn with_capacity(_: usize) -> Self { Self::default() }
        }
        impl<T, S: 'static> HashSet<T, S> {
            pub fn with_hasher(s: S) -> Self { HashSet(R::with_hasher(Inner(s))) }
            pub fn iter(&self) -> ::std::vec::IntoIter<&T> { ord::<S, _>(self.0.iter()) }
            pub fn drain(&mut self) -> ::std::vec::IntoIter<T> { ord::<S, _>(self.0.drain()) }
        }
        impl<T: Eq + Hash, S: BuildHasher + 'static> HashSet<T, S> {
            pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { ord::<S, _>(self.0.union(&o.0)) }
            pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { ord::<S, _>(self.0.intersection(&o.0)) }
            pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { ord::<S, _>(self.0.difference(&o.0)) }
            pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::vec::IntoIter<&'a T> { ord::<S, _>(self.0.symmetric_difference(&o.0)) }
            pub fn is_subset(&self, o: &Self) -> bool { self.0.is_subset(&o.0) }
            pub fn is_superset(&self, o: &Self) -> bool { self.0.is_superset(&o.0) }
            pub fn is_disjoint(&self, o: &Self) -> bool { self.0.is_disjoint(&o.0) }
        }
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default + 'static> ::std::ops::BitOr<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitor(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.0.union(&o.0).cloned().collect() } }
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default + 'static> ::std::ops::BitAnd<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitand(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.0.intersection(&o.0).cloned().collect() } }
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default + 'static> ::std::ops::Sub<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn sub(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.0.difference(&o.0).cloned().collect() } }
        impl<T, S: 'static> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = ::std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { ord::<S, _>(self.0.into_iter()) } }
        impl<'a, T, S: 'static> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = ::std::vec::IntoIter<&'a T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
        impl<T: Eq + Hash, S: BuildHasher + Default + 'static> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut r = Self::default(); r.0.extend(i); r } }
        impl<T: Eq + Hash, S: BuildHasher + 'static> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.0.extend(i) } }
        impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher + 'static> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { self.0.extend(i) } }
        impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
        impl<T: Eq + Hash, S: BuildHasher + 'static> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<T: Eq + Hash, S: BuildHasher + 'static> Eq for HashSet<T, S> { }
        impl<T: Clone, S: Clone> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet(self.0.clone()) } }
        impl<T: ::std::fmt::Debug, S: 'static> ::std::fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    }
}

pub mod env {
    pub use ::std::env::*;
    use ::std::ffi::{OsStr, OsString};
    fn get(k: &OsStr) -> Option<OsString> {
        match crate::ctl::choose(3, &format!("environment variable {}", k.to_string_lossy())) {
            0 => None, 1 => Some("1".into()), _ => Some("MockFoo".into()),
        }
    }
    pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> { get(k.as_ref()).map(|s| s.into_string().unwrap()).ok_or(VarError::NotPresent) }
    pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> { get(k.as_ref()) }
    pub fn vars() -> ::std::vec::IntoIter<(String, String)> {
        let v = vec![("A".to_string(), "1".to_string()), ("MOCKALL".to_string(), "x".to_string())];
        (match crate::ctl::choose(2, "environment") { 0 => vec![], _ => v }).into_iter()
    }
    pub fn current_dir() -> ::std::io::Result<::std::path::PathBuf> { Ok(["/", "/tmp"][crate::ctl::choose(2, "current directory")].into()) }
}

pub mod process {
    pub use ::std::process::*;
    pub fn id() -> u32 { 100 + crate::ctl::choose(2, "process id") as u32 }
}

pub mod time {
    pub use ::std::time::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct SystemTime(::std::time::SystemTime);
    impl SystemTime {
        pub const UNIX_EPOCH: ::std::time::SystemTime = ::std::time::SystemTime::UNIX_EPOCH;
        pub fn now() -> ::std::time::SystemTime { ::std::time::UNIX_EPOCH + Duration::from_nanos([1, 1_700_000_000_123_456_789][crate::ctl::choose(2, "time")]) }
    }
}
