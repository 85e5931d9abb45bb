"""C14: the run-time adapters (src/*.rs) do not change what they adapt. Contracts over the real trait methods."""
from model import *

USE = "use thiserror::__private::{AsDisplay, AsDynError, Var};\nuse std::panic::UnwindSafe;\n"
PUSE = "use thiserror::__private::ThiserrorProvide;\nuse std::error::{request_ref, Request};\n"

MK = {"Deep": "nd.deep()", "Skin": "nd.skin()", "Inner": "nd.skin().0", "Leaf": "nd.leaf()", "Node": "nd.node()", "Prov": "nd.prov()", "Leaf2": "nd.leaf2()", "two::Option<u8, Leaf>": "two::Option(nd.byte(), std::marker::PhantomData)"}


def cases(tier, rng):
    out = []

    def add(desc, body, items="", kani=True, unwind=24, nightly=True):
        out.append(Case("c14_%04d" % len(out), desc, USE + PUSE + items, body, kani=kani, unwind=unwind, nightly=nightly))

    for t, mk in MK.items():
        add("AsDynError for sized %s" % t, """
    let e: %s = %s;
    let d: &(dyn StdError + 'static) = e.as_dyn_error();
    ck!(thin(d) == thin(&e), "the same object");
    ck!(d.is::<%s>(), "of the same type");
    ck!(same_source(StdError::source(d), StdError::source(&e)), "with the same source");
    { let mut a = Buf::new(); let mut b = Buf::new(); ck!(write!(a, "{:*>5}", d).is_ok() && write!(b, "{:*>5}", e).is_ok(), "ok"); ck!(a.same(&b), "and the same Display"); }
    #[cfg(kani)] std::mem::forget(e);""" % (t, mk, t))
        for dyn in ("dyn StdError", "dyn StdError + Send", "dyn StdError + Send + Sync", "dyn StdError + Send + Sync + UnwindSafe"):
            add("AsDynError for %s over %s" % (dyn, t), """
    let e: %s = %s;
    let o: &(%s + 'static) = &e;
    let d: &(dyn StdError + 'static) = o.as_dyn_error();
    ck!(thin(d) == thin(&e), "the same object");
    ck!(d.is::<%s>(), "of the same type");
    ck!(same_source(StdError::source(d), StdError::source(&e)), "with the same source");
    { let mut a = Buf::new(); let mut b = Buf::new(); ck!(write!(a, "{:?}", d).is_ok() && write!(b, "{:?}", e).is_ok(), "ok"); ck!(a.same(&b), "and the same Debug"); }
    #[cfg(kani)] std::mem::forget(e);""" % (t, mk, dyn, t))
    # objects with a shorter lifetime
    SHORT = """
struct Short<'a>(&'a u8);
impl<'a> Display for Short<'a> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Display::fmt(self.0, f) } }
impl<'a> fmt::Debug for Short<'a> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("short") } }
impl<'a> StdError for Short<'a> {}
"""
    for dyn in ("Short", "dyn StdError + '_", "dyn StdError + Send + '_", "dyn StdError + Send + Sync + '_", "dyn StdError + Send + Sync + UnwindSafe + '_"):
        add("AsDynError keeps lifetimes, %s" % dyn, """
    let v = nd.byte();
    let e = Short(&v);
    let o: &(%s) = &e;
    let d: &(dyn StdError + '_) = o.as_dyn_error();
    ck!(thin(d) == thin(&e), "the same object");""" % dyn, SHORT)
    # forwarding requests
    for d, decl, obj in (("sized", "let e = nd.prov();", "e"), ("dyn", "let e: Box<dyn StdError> = Box::new(nd.prov());", "e"),
                         ("dyn Send", "let e: Box<dyn StdError + Send> = Box::new(nd.prov());", "(*e)"),
                         ("dyn Send Sync", "let e: Box<dyn StdError + Send + Sync> = Box::new(nd.prov());", "e"),
                         ("dyn Send Sync 2", "let e: std::sync::Arc<dyn StdError + Send + Sync> = std::sync::Arc::new(nd.prov());", "(*e)")):
        cast = "&e" if d == "sized" else "(&*e).downcast_ref::<Prov>().unwrap()"
        add("ThiserrorProvide forwards, %s" % d, """
    %s
    let want: &Prov = %s;
    // a wrapper whose provide is exactly the adapter call
    let w = Fwd(&e);
    let got = request_ref::<Marker>(&w);
    ck!(same_ref(got, Some(&want.m)), "the request reaches the object's own provide");
    let bt = request_ref::<std::backtrace::Backtrace>(&w);
    ck!(same_ref(bt, want.bt.as_ref()), "for every requested type");
    ck!(request_ref::<Leaf>(&w).is_none(), "and nothing else is provided");
    #[cfg(kani)] std::mem::forget(e);""" % (decl, cast), """
struct Fwd<'b, T>(&'b T);
impl<'b, T> Display for Fwd<'b, T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Ok(()) } }
impl<'b, T> fmt::Debug for Fwd<'b, T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Ok(()) } }
impl<'b> StdError for Fwd<'b, %s> { fn provide<'a>(&'a self, r: &mut Request<'a>) { self.0.thiserror_provide(r); } }
""" % ({"sized": "Prov", "dyn": "Box<dyn StdError>", "dyn Send": "Box<dyn StdError + Send>", "dyn Send Sync": "Box<dyn StdError + Send + Sync>", "dyn Send Sync 2": "std::sync::Arc<dyn StdError + Send + Sync>"}[d]))
    # display adapter
    for t, mk in (("Leaf", "nd.leaf()"), ("Node", "nd.node()"), ("Leaf2", "nd.leaf2()"), ("Skin", "nd.skin()")):
        add("AsDisplay for &%s" % t, """
    let v: %s = %s;
    let r = &v;
    ck!(std::ptr::eq(r.as_display(), &v), "the same object");
    same_display!(r.as_display(), v; "{}", "{:*^+9.2}", "{:<#05}");
    #[cfg(kani)] std::mem::forget(v);""" % (t, mk))
    for t, mk in (("str", '["", "a", "long text", "\\u{f6}"][nd.below(4) as usize]'), ("dyn Display", "&nd.leaf() as &dyn Display")):
        add("AsDisplay for &%s" % t, """
    let v = %s;
    let k = %s;
    same_display!(k.as_display(), k; "{}", "{:*^+9.2}", "{:<#05}");""" % (("nd.byte()", mk) if t == "str" else ("nd.leaf()", "&v as &dyn Display")), kani=False)
    add("AsDisplay for Path and PathBuf", """
    use std::os::unix::ffi::OsStringExt;
    let n = nd.below(7);
    let bytes: Vec<u8> = (0..n).map(|_| nd.byte()).collect();
    let p = std::path::PathBuf::from(std::ffi::OsString::from_vec(bytes));
    same_display!(p.as_display(), p.display(); "{}", "{:*^12}", "{:>9.2}");
    let q: &std::path::Path = &p;
    same_display!(q.as_display(), p.display(); "{}", "{:*^12}", "{:>9.2}");
    let r: &std::path::PathBuf = &p;
    same_display!(r.as_display(), p.display(); "{}", "{:*^12}", "{:>9.2}");""", kani=False)
    # pointer adapter
    add("Var prints what it wraps, logged options", """
    let v = nd.leaf();
    same_display!(P(&v), Q(&v); "{}", "{:#}", "{:>9}", "{:*<+7.2}", "{:05}");""", """
struct P<'a>(&'a Leaf);
impl<'a> Display for P<'a> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { fmt::Pointer::fmt(&Var(self.0), f) } }
struct Q<'a>(&'a Leaf);
impl<'a> Display for Q<'a> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { fmt::Pointer::fmt(self.0, f) } }
""")
    add("Var prints the wrapped pointer", """
    let x = nd.byte();
    let r: &u8 = &x;
    let b: Box<u8> = Box::new(nd.byte());
    let c: *const u8 = nd.byte() as usize as *const u8;
    let m: *mut u8 = nd.byte() as usize as *mut u8;
    let a = std::sync::Arc::new(1u8);

    %s""" % ("".join('{ let s = format!("{:%s}", Var(&%s)); let w = format!("{:%s}", %s); ck!(s == w, "the address held in the value, under the same options"); }\n' % (o, v, o, v)
                         for v in "rbcma" for o in ("p", "#p", ">30p", "#020p", "*<9p"))), kani=False)
    # unsized pointees
    add("Var over unsized", """
    let s: Box<str> = "abc".into();
    let l: &[u8] = &[1, 2];
    ck!(format!("{:p}", Var(&s)) == format!("{:p}", s), "the address held");
    ck!(format!("{:p}", Var(&l)) == format!("{:p}", l), "the address held");""", kani=False)
    return out
