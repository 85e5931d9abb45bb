// Run-time support shared by the native replay and the Kani harnesses: symbolic payloads, a
// recording sink, and error types whose formatting logs exactly how they were called.
#![allow(dead_code, unused_imports, unused_macros)]
use std::backtrace::Backtrace;
use std::error::Error as StdError;
#[cfg(feature = "provide")]
use std::error::Request;
use std::fmt::{self, Formatter, Write};

/// Source of the universally quantified values: `kani::any()` in a proof, recorded bytes in a replay.
pub struct Nd {
    #[cfg(not(kani))]
    pub bytes: Vec<u8>,
    #[cfg(not(kani))]
    pub pos: usize,
}
impl Nd {
    #[cfg(kani)]
    pub fn new() -> Self { Nd {} }
    #[cfg(not(kani))]
    pub fn new(bytes: Vec<u8>) -> Self { Nd { bytes, pos: 0 } }
    #[cfg(kani)]
    pub fn byte(&mut self) -> u8 { kani::any() }
    #[cfg(not(kani))]
    pub fn byte(&mut self) -> u8 {
        let b = if self.pos < self.bytes.len() { self.bytes[self.pos] } else { 0 };
        self.pos += 1;
        b
    }
    pub fn bool(&mut self) -> bool { self.byte() & 1 == 1 }
    /// a value below n
    pub fn below(&mut self, n: u8) -> u8 {
        let b = self.byte();
        #[cfg(kani)]
        { kani::assume(b < n); b }
        #[cfg(not(kani))]
        { b % n }
    }
    pub fn leaf(&mut self) -> Leaf { Leaf(self.byte()) }
    pub fn leaf2(&mut self) -> Leaf2 { Leaf2(self.byte()) }
    pub fn opt(&mut self) -> Option<Leaf> { if self.bool() { Some(self.leaf()) } else { None } }
    pub fn static_leaf(&mut self) -> &'static Leaf {
        static A: Leaf = Leaf(0);
        static B: Leaf = Leaf(1);
        if self.bool() { &A } else { &B }
    }
    pub fn node(&mut self) -> Node {
        let v = self.byte();
        let inner = if self.bool() { Some(Leaf(self.byte())) } else { None };
        Node { v, inner }
    }
}

/// Contract clause: under Kani a proof obligation, natively a panic caught by the replay driver.
#[macro_export]
macro_rules! ck {
    ($cond:expr, $msg:literal) => {
        assert!($cond, $msg)
    };
}

#[cfg(kani)]
const CAP: usize = 200;

/// Recording sink.
pub struct Buf {
    #[cfg(kani)]
    b: [u8; CAP],
    #[cfg(kani)]
    n: usize,
    #[cfg(not(kani))]
    pub s: String,
}
impl Buf {
    #[cfg(kani)]
    pub fn new() -> Self { Buf { b: [0; CAP], n: 0 } }
    #[cfg(not(kani))]
    pub fn new() -> Self { Buf { s: String::new() } }
    #[cfg(kani)]
    pub fn same(&self, o: &Buf) -> bool {
        if self.n != o.n { return false; }
        let mut i = 0;
        while i < self.n {
            if self.b[i] != o.b[i] { return false; }
            i += 1;
        }
        true
    }
    #[cfg(not(kani))]
    pub fn same(&self, o: &Buf) -> bool {
        if self.s != o.s { eprintln!("  derived:  {:?}\n  contract: {:?}", self.s, o.s); }
        self.s == o.s
    }
    #[cfg(kani)]
    pub fn is(&self, t: &str) -> bool {
        let t = t.as_bytes();
        if self.n != t.len() { return false; }
        let mut i = 0;
        while i < self.n {
            if self.b[i] != t[i] { return false; }
            i += 1;
        }
        true
    }
    #[cfg(not(kani))]
    pub fn is(&self, t: &str) -> bool {
        if self.s != t { eprintln!("  derived:  {:?}\n  contract: {:?}", self.s, t); }
        self.s == t
    }
}
impl Write for Buf {
    #[cfg(kani)]
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let t = s.as_bytes();
        let mut i = 0;
        while i < t.len() {
            self.b[self.n] = t[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
    #[cfg(not(kani))]
    fn write_str(&mut self, s: &str) -> fmt::Result { self.s.push_str(s); Ok(()) }
}

/// Render through Display with default options.
pub fn show(e: &dyn fmt::Display) -> Buf {
    let mut b = Buf::new();
    ck!(write!(b, "{}", e).is_ok(), "Display must not fail");
    b
}

/// A hand-written Display impl given as a closure: the other side of every Display contract.
pub struct By<F>(pub F);
impl<F: Fn(&mut Formatter) -> fmt::Result> fmt::Display for By<F> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result { (self.0)(f) }
}

const HEX: [&str; 16] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"];

fn log(v: u8, tag: &str, f: &mut Formatter) -> fmt::Result {
    f.write_str(tag)?;
    #[cfg(kani)]
    f.write_str(if v & 1 == 1 { "1" } else { "0" })?;
    #[cfg(not(kani))]
    { f.write_str(HEX[(v >> 4) as usize])?; f.write_str(HEX[(v & 15) as usize])?; }
    if let Some(w) = f.width() { f.write_str("w")?; num(w, f)?; }
    if let Some(p) = f.precision() { f.write_str(".")?; num(p, f)?; }
    match f.align() {
        Some(fmt::Alignment::Left) => f.write_str("<")?,
        Some(fmt::Alignment::Right) => f.write_str(">")?,
        Some(fmt::Alignment::Center) => f.write_str("^")?,
        None => {}
    }
    if f.fill() != ' ' { f.write_str("F")?; f.write_char(f.fill())?; }
    if f.alternate() { f.write_str("#")?; }
    if f.sign_plus() { f.write_str("+")?; }
    if f.sign_minus() { f.write_str("-")?; }
    if f.sign_aware_zero_pad() { f.write_str("Z")?; }
    Ok(())
}
fn num(n: usize, f: &mut Formatter) -> fmt::Result {
    f.write_str(HEX[(n >> 4) & 15])?;
    f.write_str(HEX[n & 15])
}

/// Error payload without a source. Every formatting trait logs its own tag, the value and all options.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Leaf(pub u8);
macro_rules! logs {
    ($t:ty: $($tr:ident $tag:literal),*) => { $(impl fmt::$tr for $t {
        fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0, $tag, f) }
    })* };
}
logs!(Leaf: Display "D", Debug "?", Octal "o", LowerHex "x", UpperHex "X", Pointer "p", Binary "b", LowerExp "e", UpperExp "E");
impl StdError for Leaf {}

/// A second payload type, distinguishable from Leaf.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Leaf2(pub u8);
logs!(Leaf2: Display "d", Debug "!");
impl StdError for Leaf2 {}

/// Error payload with an optional source of its own, and values it provides.
#[derive(Clone)]
pub struct Node { pub v: u8, pub inner: Option<Leaf> }
impl fmt::Display for Node { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.v, "N", f) } }
impl fmt::Debug for Node { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.v, "n", f) } }
impl StdError for Node {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        match &self.inner { Some(l) => Some(l), None => None }
    }
}

/// Error with a chain of sources of any depth, every link as large as the next.
pub struct Deep { pub v: u8, pub next: Option<Box<Deep>> }
impl fmt::Display for Deep { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.v, "C", f) } }
impl fmt::Debug for Deep { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.v, "c", f) } }
impl StdError for Deep {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        match &self.next { Some(l) => Some(&**l), None => None }
    }
}
/// Error which lies at the same address as its own source, and that one too.
pub struct Skin(pub Inner);
pub struct Inner(pub Leaf);
impl fmt::Display for Skin { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0 .0 .0, "S", f) } }
impl fmt::Debug for Skin { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0 .0 .0, "s", f) } }
impl StdError for Skin { fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(&self.0) } }
impl fmt::Display for Inner { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0 .0, "I", f) } }
impl fmt::Debug for Inner { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0 .0, "i", f) } }
impl StdError for Inner { fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(&self.0) } }
impl Nd {
    pub fn deep(&mut self) -> Deep {
        let mut d = Deep { v: self.byte(), next: None };
        let n = self.below(5);
        let mut i = 0;
        while i < n { d = Deep { v: self.byte(), next: Some(Box::new(d)) }; i += 1; }
        d
    }
    pub fn skin(&mut self) -> Skin { Skin(Inner(self.leaf())) }
}

/// Option under a path of two segments, and a projection which is the identity.
pub mod o {
    pub use std::option::Option;
    pub trait Same { type Ty; }
    impl<T> Same for T { type Ty = T; }
}

pub struct Marker(pub u8);

/// Error that provides a Marker, and a Backtrace when `bt` is set.
pub struct Prov { pub m: Marker, pub bt: Option<Backtrace> }
impl fmt::Display for Prov { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.m.0, "P", f) } }
impl fmt::Debug for Prov { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.m.0, "q", f) } }
impl StdError for Prov {
    #[cfg(feature = "provide")]
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        r.provide_ref::<Marker>(&self.m);
        if let Some(b) = &self.bt { r.provide_ref::<Backtrace>(b); }
    }
}
impl Nd {
    pub fn prov(&mut self) -> Prov {
        let m = Marker(self.byte());
        let bt = if self.bool() { Some(Backtrace::disabled()) } else { None };
        Prov { m, bt }
    }
}

/// A type called Option that is not core's: two parameters.
pub mod two { use super::*;
    pub struct Option<A, B>(pub u8, pub std::marker::PhantomData<(A, B)>);
    impl<A, B> fmt::Display for Option<A, B> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0, "T", f) } }
    impl<A, B> fmt::Debug for Option<A, B> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0, "t", f) } }
    impl<A, B> StdError for Option<A, B> {}
}
/// A type called Option without parameters.
pub mod zero { use super::*;
    pub struct Option(pub u8);
    pub struct Holder<T>(pub T);
    impl<T> fmt::Display for Holder<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("holder") } }
    impl<T> fmt::Debug for Holder<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("holder") } }
    impl<T> StdError for Holder<T> {}
    impl fmt::Display for Option { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0, "Z", f) } }
    impl fmt::Debug for Option { fn fmt(&self, f: &mut Formatter) -> fmt::Result { log(self.0, "z", f) } }
    impl StdError for Option {}
}
/// A generic error whose name merely resembles Option.
pub struct Optional<T>(pub T);
impl<T> fmt::Display for Optional<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("optional") } }
impl<T> fmt::Debug for Optional<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("optional") } }
impl<T> StdError for Optional<T> {}

/// Debug without derive cost for wrappers.
pub struct Quiet<T>(pub T);
impl<T> fmt::Debug for Quiet<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("quiet") } }

pub fn thin<T: ?Sized>(r: &T) -> *const () { r as *const T as *const () }
/// same object: `got` is Some and its data pointer is `want`
pub fn is_at(got: Option<&(dyn StdError + 'static)>, want: *const ()) -> bool {
    match got { Some(e) => thin(e) == want, None => false }
}
/// and its dynamic type is T
pub fn is_a<T: StdError + 'static>(got: Option<&(dyn StdError + 'static)>) -> bool {
    match got { Some(e) => e.is::<T>(), None => false }
}

/// `impls!(Type: Trait)` without requiring it (autoref specialization).
#[macro_export]
macro_rules! impls {
    ($t:ty : $($tr:tt)+) => {{
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        trait No { const YES: bool = false; }
        impl<T: ?Sized> No for W<T> {}
        impl<T: ?Sized + $($tr)+> W<T> { const YES: bool = true; }
        <W<$t>>::YES
    }};
}

/// The derived Display under several formatter options equals that of `want` under the same options.
#[macro_export]
macro_rules! same_display {
    ($e:expr, $want:expr; $($spec:literal),+) => { $( {
        let mut a = Buf::new();
        let mut b = Buf::new();
        let ra = write!(a, $spec, $e);
        let rb = write!(b, $spec, $want);
        ck!(ra.is_ok() == rb.is_ok(), "Display result is that of the inner error");
        ck!(a.same(&b), "Display text is that of the inner error under the same options");
    } )+ };
}
pub fn same_source(a: Option<&(dyn StdError + 'static)>, b: Option<&(dyn StdError + 'static)>) -> bool {
    match (a, b) { (Some(a), Some(b)) => thin(a) == thin(b), (None, None) => true, _ => false }
}

/// Stand-in for Backtrace::capture in proofs; counts captures.
#[cfg(kani)]
pub static mut CAPTURES: u32 = 0;
#[cfg(kani)]
pub fn stub_capture() -> Backtrace { unsafe { CAPTURES += 1; } Backtrace::disabled() }
/// `b` was made by Backtrace::capture() in this environment.
pub fn captured(b: &Backtrace) -> bool {
    #[cfg(kani)]
    { let _ = b; unsafe { CAPTURES == 1 } }
    #[cfg(not(kani))]
    {
        let now = Backtrace::capture();
        let same = std::mem::discriminant(&b.status()) == std::mem::discriminant(&now.status());
        if let std::backtrace::BacktraceStatus::Captured = now.status() {
            // fresh: it goes through the derived From impl on this very stack
            let s = b.to_string();
            same && s.contains("contract")
        } else { same }
    }
}
pub fn same_ref<T>(a: Option<&T>, b: Option<&T>) -> bool {
    match (a, b) { (Some(a), Some(b)) => std::ptr::eq(a, b), (None, None) => true, _ => false }
}
