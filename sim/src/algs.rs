//! The algebras of the simulated programs, and what is declared about them (independently of the library).
use crate::model::Sig;
use ndarray::Array2;
use num::complex::Complex64;
use simrt::prng::Rng;
use tclifford::algebra::ClBasis;
use tclifford::declare_algebra;
use tclifford::types::{DivRing, Ring};
use tclifford::{ClAlgebra, FFTRepr, Multivector, SparseMultivector};

/// Per-algebra entry points that need bounds or constants the generic code cannot name.
pub trait Alg: ClAlgebra + Sized + 'static {
    const N: usize;
    const SIG: &'static str;
    fn sig() -> Sig {
        Sig::parse(Self::SIG)
    }
    fn basis_d<C: Ring + Clone>() -> Vec<Multivector<C, Self>>;
    fn basis_s<C: Ring + Clone>() -> Vec<SparseMultivector<C, Self>>;
    fn basis_f() -> Vec<FFTRepr<Self>>;
    fn sig_f() -> (Vec<i8>, Vec<f64>);
    fn div_d<C: DivRing + Clone>(_a: &Multivector<C, Self>, _b: &Multivector<C, Self>, _k: u64) -> Option<Multivector<C, Self>> {
        None
    }
    fn div_s<C: DivRing + Clone>(_a: &SparseMultivector<C, Self>, _b: &SparseMultivector<C, Self>, _k: u64) -> Option<SparseMultivector<C, Self>> {
        None
    }
    fn real_fft<C: DivRing + Clone>(_a: &Multivector<C, Self>) -> Option<Array2<C>> {
        None
    }
    /// None: not available for this algebra
    fn inv(_a: &FFTRepr<Self>) -> Option<Option<FFTRepr<Self>>> {
        None
    }
    fn array2(_a: FFTRepr<Self>) -> Option<(Array2<Complex64>, FFTRepr<Self>, (Array2<Complex64>, Array2<Complex64>))> {
        None
    }
}

macro_rules! four {
    ($a:ident $op:tt $b:ident, $k:expr) => {
        match $k % 4 {
            0 => $a $op $b,
            1 => $a.clone() $op $b,
            2 => $a $op $b.clone(),
            _ => $a.clone() $op $b.clone(),
        }
    };
}
pub(crate) use four;

macro_rules! extra {
    (div) => {
        fn div_d<C: DivRing + Clone>(a: &Multivector<C, Self>, b: &Multivector<C, Self>, k: u64) -> Option<Multivector<C, Self>> {
            Some(four!(a / b, k))
        }
        fn div_s<C: DivRing + Clone>(a: &SparseMultivector<C, Self>, b: &SparseMultivector<C, Self>, k: u64) -> Option<SparseMultivector<C, Self>> {
            Some(four!(a / b, k))
        }
    };
    (split) => {
        fn real_fft<C: DivRing + Clone>(a: &Multivector<C, Self>) -> Option<Array2<C>> { Some(a.real_fft()) }
    };
    (nd) => {
        fn inv(a: &FFTRepr<Self>) -> Option<Option<FFTRepr<Self>>> { Some(a.inv()) }
        fn array2(a: FFTRepr<Self>) -> Option<(Array2<Complex64>, FFTRepr<Self>, (Array2<Complex64>, Array2<Complex64>))> {
            let m = a.clone().into_array2();
            let b = FFTRepr::<Self>::from_array2(m.clone()).unwrap();
            Some((m, b, a.into_half_spin_repr()))
        }
    };
}
macro_rules! impl_alg {
    ($name:ident, $n:expr, $sig:expr, $($x:ident)*) => {
        impl Alg for $name {
            const N: usize = $n;
            const SIG: &'static str = $sig;
            fn basis_d<C: Ring + Clone>() -> Vec<Multivector<C, Self>> {
                Multivector::<C, Self>::basis::<{ $n }>().into_iter().collect()
            }
            fn basis_s<C: Ring + Clone>() -> Vec<SparseMultivector<C, Self>> {
                SparseMultivector::<C, Self>::basis::<{ $n }>().into_iter().collect()
            }
            fn basis_f() -> Vec<FFTRepr<Self>> { FFTRepr::<Self>::basis::<{ $n }>().into_iter().collect() }
            fn sig_f() -> (Vec<i8>, Vec<f64>) {
                (<Self as ClBasis<{ $n }>>::signature().to_vec(), <Self as ClBasis<{ $n }>>::signaturef().to_vec())
            }
            $(extra!($x);)*
        }
    };
}

pub struct Info {
    pub name: &'static str,
    pub sig: &'static str,
    pub labels: &'static [&'static str],
    pub dense: bool,
    /// dense although so large that few operations are affordable
    pub big: bool,
}
impl Info {
    pub fn sig(&self) -> Sig {
        Sig::parse(self.sig)
    }
    pub fn label(&self, g: usize) -> String {
        if self.labels.is_empty() { format!("e{g}") } else { self.labels[g].to_string() }
    }
    /// blade label, generators in descending (or, reversed, ascending) order
    pub fn blade(&self, idx: usize, reversed: bool) -> String {
        let mut g: Vec<usize> = (0..self.sig.len()).filter(|g| idx >> g & 1 == 1).collect();
        if !reversed {
            g.reverse();
        }
        g.into_iter().map(|g| self.label(g)).collect::<Vec<_>>().join("^")
    }
}

pub use tclifford::quaternion::QuaternionAlgebra as Q2;

macro_rules! algebras {
    ($($name:ident $n:literal [$($s:tt),+] [$($l:literal),*] ($($x:ident)*) $class:ident;)*) => {
        $(algebras!(@decl $name [$($s),+] [$($l),*]);)*
        $(impl_alg!($name, $n, concat!($(stringify!($s)),+), $($x)*);)*
        pub static INFO: &[Info] = &[
            $(Info { name: stringify!($name), sig: concat!($(stringify!($s)),+), labels: &[$($l),*], dense: algebras!(@dense $class), big: algebras!(@big $class) },)*
        ];
    };
    (@decl Q2 $s:tt $l:tt) => {};
    (@decl $name:ident $s:tt $l:tt) => { declare_algebra!(pub $name, $s, $l); };
    (@dense s) => { false };
    (@dense $c:ident) => { true };
    (@big b) => { true };
    (@big $c:ident) => { false };
}

algebras! {
    P1 1 [+] [] (nd) d;
    N1 1 [-] ["i"] (div nd) d;
    Z1 1 [0] ["eps"] () d;
    P2 2 [+,+] ["x","y"] (nd) d;
    S2 2 [+,-] [] (split nd) d;
    N2 2 [-,-] ["a","b"] (div nd) d;
    Q2 2 [-,-] ["I","J"] (div nd) d;
    G1 2 [+,0] ["x","n"] () d;
    Z2 2 [0,0] [] () d;
    P3 3 [+,+,+] ["x","y","z"] (nd) d;
    G2 3 [+,+,0] ["x","y","n"] () d;
    N3 3 [-,-,-] [] (nd) d;
    M3 3 [-,+,0] [] () d;
    W3 3 [+,-,0] [] () d;
    ST 4 [+,-,-,-] ["t","x","y","z"] (nd) d;
    W4 4 [-,-,+,-] ["x","y","t","z"] (nd) d;
    TS 4 [-,+,+,+] ["t","x","y","z"] (nd) d;
    G3 4 [+,+,+,0] ["x","y","z","e"] () d;
    S4 4 [+,-,+,-] [] (split nd) d;
    R4 4 [-,0,0,0] [] () d;
    C5 5 [+,+,+,+,-] ["a","b","c","p","q"] (nd) d;
    N5 5 [-,-,-,-,-] [] (nd) d;
    M5 5 [+,-,0,0,0] [] () d;
    P6 6 [+,+,+,+,+,+] [] (nd) d;
    Z6 6 [0,0,0,0,0,0] [] () d;
    S6 6 [+,-,+,-,+,-] [] (split nd) d;
    M6 6 [-,+,-,-,0,0] [] () d;
    P7 7 [+,+,+,+,+,+,+] [] (nd) d;
    M7 7 [-,+,+,-,+,0,0] [] () d;
    P8 8 [+,+,+,+,+,+,+,+] [] (nd) d;
    M8 8 [-,-,+,+,-,0,0,0] [] () d;
    N8 8 [-,+,-,+,-,-,-,-] ["a","b","c","d","e","f","g","h"] (nd) d;
    M9 9 [+,-,-,0,0,0,0,0,0] [] () d;
    X9 9 [+,-,+,-,+,+,+,-,+] [] (nd) d;
    XA 10 [+,+,-,-,-,+,+,-,0,0] [] () d;
    XC 12 [+,+,+,+,-,-,-,-,+,-,0,0] [] () d;
    XH 17 [+,-,+,-,+,-,+,-,+,-,+,-,+,-,-,0,0] [] () b;
    LD 13 [+,-,+,-,+,-,+,-,+,-,-,0,0] [] () s;
    LS 16 [-,+,-,+,+,+,-,-,+,-,+,-,+,-,0,0] [] () s;
    LK 20 [+,+,+,+,+,-,-,-,-,-,+,-,+,-,+,-,0,0,0,0] [] () s;
    LG 32 [+,-,-,+,+,-,-,+,+,-,-,+,+,-,-,+,+,-,-,+,+,-,-,+,+,-,-,+,0,0,0,0] [] () s;
    LT 33 [-,-,-,-,-,-,-,-,+,+,+,+,+,+,+,+,-,-,-,-,+,+,+,+,-,+,-,+,-,+,-,+,0] [] () s;
    LQ 48 [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,-,+,-,+,-,+,-,+,-,0,0,0,0,0,0,0,0] [] () s;
    LX 63 [+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,+,-,0,0,0] [] () s;
}

/// Expand `$body` with the type alias `$A` for the algebra named `$n`.
macro_rules! with_alg {
    (@ $n:expr, $A:ident, $body:expr, $other:expr; $($name:ident)*) => {
        match $n {
            $(stringify!($name) => { type $A = $crate::algs::$name; $body })*
            other => $other(other),
        }
    };
}
macro_rules! with_dense {
    ($n:expr, $A:ident => $body:expr, $other:expr) => {
        $crate::algs::with_alg!(@ $n, $A, $body, $other;
            P1 N1 Z1 P2 S2 N2 Q2 G1 Z2 P3 G2 N3 M3 W3 ST W4 TS G3 S4 R4 C5 N5 M5 P6 Z6 S6 M6 P7 M7 P8 M8 N8 M9 X9 XA XC XH)
    };
}
macro_rules! with_sparse_only {
    ($n:expr, $A:ident => $body:expr, $other:expr) => {
        $crate::algs::with_alg!(@ $n, $A, $body, $other; LD LS LK LG LT LQ LX)
    };
}
pub(crate) use {with_alg, with_dense, with_sparse_only};

pub fn info(name: &str) -> &'static Info {
    INFO.iter().find(|i| i.name == name).unwrap_or_else(|| panic!("unknown algebra {name}"))
}
pub fn names(f: impl Fn(&Info) -> bool) -> Vec<&'static str> {
    INFO.iter().filter(|i| !i.big && f(i)).map(|i| i.name).collect()
}
/// One of the pool; now and then with as many generators as the algebra chosen before, of other kinds or in another order.
pub fn another(r: &mut Rng, before: &[(String, String)], pool: &[&'static str]) -> &'static str {
    if let Some((b, _)) = before.last() {
        let dim = info(b).sig.len();
        let alike: Vec<&'static str> = pool.iter().copied().filter(|n| n != b && info(n).sig.len() == dim).collect();
        if !alike.is_empty() && r.chance(1, 3) {
            return *r.pick(&alike);
        }
    }
    *r.pick(pool)
}
