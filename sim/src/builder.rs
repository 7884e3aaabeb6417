//! Drives yason's builders through a document model, with disturbances from the fault stream
//! between the pushes: refused, failed, unwound and abandoned operations. Tracks what yason
//! acknowledged, which is what the finished document has to contain.

use crate::alloc::{unarmed, Plan};
use crate::codec;
use crate::ctx::{take_panic, viol, Ctx, INJECTED, R};
use crate::model::{brief_str, key_cmp, M};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yason::{
    ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf,
};

pub type B<T> = Result<T, BuildError>;

/// A string argument whose conversion unwinds.
pub struct BadStr;
impl AsRef<str> for BadStr {
    fn as_ref(&self) -> &str {
        panic!("{}", INJECTED)
    }
}
pub struct BadNum;
impl AsRef<Number> for BadNum {
    fn as_ref(&self) -> &Number {
        panic!("{}", INJECTED)
    }
}

/// A string argument whose conversion itself uses yason (re-entrancy).
pub struct ReStr<'a>(pub &'a str);
impl AsRef<str> for ReStr<'_> {
    fn as_ref(&self) -> &str {
        let mut b = ObjectBuilder::try_new(2, false).unwrap();
        b.push_string("inner", self.0).unwrap();
        let mut a = b.push_array("a", 1).unwrap();
        a.push_bool(true).unwrap();
        a.finish().unwrap();
        let d = b.finish().unwrap();
        assert!(d.object().unwrap().string("inner").unwrap() == Some(self.0));
        self.0
    }
}

pub trait ArrB {
    fn obj(&mut self, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
    fn arr(&mut self, n: u16) -> B<ArrayRefBuilder<'_>>;
    fn s<T: AsRef<str>>(&mut self, v: T) -> B<()>;
    fn num<T: AsRef<Number>>(&mut self, v: T) -> B<()>;
    fn b(&mut self, v: bool) -> B<()>;
    fn null(&mut self) -> B<()>;
}

pub trait ObjB {
    fn obj<K: AsRef<str>>(&mut self, k: K, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>>;
    fn arr<K: AsRef<str>>(&mut self, k: K, n: u16) -> B<ArrayRefBuilder<'_>>;
    fn s<K: AsRef<str>, T: AsRef<str>>(&mut self, k: K, v: T) -> B<()>;
    fn num<K: AsRef<str>, T: AsRef<Number>>(&mut self, k: K, v: T) -> B<()>;
    fn b<K: AsRef<str>>(&mut self, k: K, v: bool) -> B<()>;
    fn null<K: AsRef<str>>(&mut self, k: K) -> B<()>;
}

macro_rules! arr_b {
    ($t:ty) => {
        impl ArrB for $t {
            fn obj(&mut self, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
                self.push_object(n, sorted)
            }
            fn arr(&mut self, n: u16) -> B<ArrayRefBuilder<'_>> {
                self.push_array(n)
            }
            fn s<T: AsRef<str>>(&mut self, v: T) -> B<()> {
                self.push_string(v).map(|_| ())
            }
            fn num<T: AsRef<Number>>(&mut self, v: T) -> B<()> {
                self.push_number(v).map(|_| ())
            }
            fn b(&mut self, v: bool) -> B<()> {
                self.push_bool(v).map(|_| ())
            }
            fn null(&mut self) -> B<()> {
                self.push_null().map(|_| ())
            }
        }
    };
}
macro_rules! obj_b {
    ($t:ty) => {
        impl ObjB for $t {
            fn obj<K: AsRef<str>>(&mut self, k: K, n: u16, sorted: bool) -> B<ObjectRefBuilder<'_>> {
                self.push_object(k, n, sorted)
            }
            fn arr<K: AsRef<str>>(&mut self, k: K, n: u16) -> B<ArrayRefBuilder<'_>> {
                self.push_array(k, n)
            }
            fn s<K: AsRef<str>, T: AsRef<str>>(&mut self, k: K, v: T) -> B<()> {
                self.push_string(k, v).map(|_| ())
            }
            fn num<K: AsRef<str>, T: AsRef<Number>>(&mut self, k: K, v: T) -> B<()> {
                self.push_number(k, v).map(|_| ())
            }
            fn b<K: AsRef<str>>(&mut self, k: K, v: bool) -> B<()> {
                self.push_bool(k, v).map(|_| ())
            }
            fn null<K: AsRef<str>>(&mut self, k: K) -> B<()> {
                self.push_null(k).map(|_| ())
            }
        }
    };
}
arr_b!(ArrayBuilder<'_>);
arr_b!(ArrayRefBuilder<'_>);
obj_b!(ObjectBuilder<'_>);
obj_b!(ObjectRefBuilder<'_>);

// ------------------------------------------------------------------------------------------------
// Plain building, no disturbances, no context: for scenarios that only need a document.

pub fn plain_arr<A: ArrB>(b: &mut A, v: &[M]) -> B<()> {
    for x in v {
        match x {
            M::Null => b.null()?,
            M::Bool(x) => b.b(*x)?,
            M::Num(n) => b.num(n)?,
            M::Str(s) => b.s(s)?,
            M::Arr(w) => {
                let mut c = b.arr(w.len() as u16)?;
                plain_arr(&mut c, w)?;
                c.finish()?;
            }
            M::Obj(w) => {
                let mut c = b.obj(w.len() as u16, false)?;
                plain_obj(&mut c, w)?;
                c.finish()?;
            }
        }
    }
    Ok(())
}

pub fn plain_obj<O: ObjB>(b: &mut O, v: &[(String, M)]) -> B<()> {
    for (k, x) in v {
        match x {
            M::Null => b.null(k)?,
            M::Bool(x) => b.b(k, *x)?,
            M::Num(n) => b.num(k, n)?,
            M::Str(s) => b.s(k, s)?,
            M::Arr(w) => {
                let mut c = b.arr(k, w.len() as u16)?;
                plain_arr(&mut c, w)?;
                c.finish()?;
            }
            M::Obj(w) => {
                let mut c = b.obj(k, w.len() as u16, false)?;
                plain_obj(&mut c, w)?;
                c.finish()?;
            }
        }
    }
    Ok(())
}

/// Builds the document with an owned builder.
pub fn plain(m: &M) -> B<YasonBuf> {
    match m {
        M::Null => Scalar::null(),
        M::Bool(b) => Scalar::bool(*b),
        M::Num(n) => Scalar::number(n),
        M::Str(s) => Scalar::string(s),
        M::Arr(v) => {
            let mut b = ArrayBuilder::try_new(v.len() as u16)?;
            plain_arr(&mut b, v)?;
            b.finish()
        }
        M::Obj(v) => {
            let mut b = ObjectBuilder::try_new(v.len() as u16, false)?;
            plain_obj(&mut b, v)?;
            b.finish()
        }
    }
}

/// Appends the document to the buffer with the by-reference builders.
pub fn plain_into<'a>(m: &M, buf: &'a mut Vec<u8>) -> B<&'a Yason> {
    match m {
        M::Null => Scalar::null_with_vec(buf),
        M::Bool(b) => Scalar::bool_with_vec(*b, buf),
        M::Num(n) => Scalar::number_with_vec(n, buf),
        M::Str(s) => Scalar::string_with_vec(s, buf),
        M::Arr(v) => {
            let mut b = ArrayRefBuilder::try_new(buf, v.len() as u16)?;
            plain_arr(&mut b, v)?;
            b.finish()
        }
        M::Obj(v) => {
            let mut b = ObjectRefBuilder::try_new(buf, v.len() as u16, false)?;
            plain_obj(&mut b, v)?;
            b.finish()
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Building with disturbances.

pub const OOM: u32 = 1;
pub const UNWIND: u32 = 2;
pub const PHANTOM: u32 = 4;
pub const BIGKEY: u32 = 8;
pub const DEEP: u32 = 16;
pub const OVER: u32 = 32;
pub const ABANDON: u32 = 64;
pub const BADFINISH: u32 = 128;
pub const FORGET: u32 = 256;
pub const REENTRANT: u32 = 512;
pub const BIGSTR: u32 = 1024;

#[derive(Clone)]
pub struct Dist {
    /// one disturbance in about `rate` pushes; 0 = none
    pub rate: u64,
    pub kinds: Vec<u32>,
    /// how many disturbances are left
    pub left: u64,
    /// Some: keep the model's order (true: sort members and announce them sorted); no draws
    pub fixed: Option<bool>,
}

/// The documented nesting limit.
pub const LIMIT: usize = 100;

impl Dist {
    pub fn none() -> Self {
        Dist { rate: 0, kinds: Vec::new(), left: 0, fixed: None }
    }
    /// A random subset of the given kinds (swarm).
    pub fn draw(ctx: &mut Ctx, kinds: &[u32]) -> Self {
        let mask = ctx.f(1 << kinds.len());
        let mut k: Vec<u32> = kinds.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, k)| *k).collect();
        if k.is_empty() {
            k = kinds.to_vec();
        }
        Dist { rate: 2 + ctx.f(10), kinds: k, left: 1 + ctx.f(12), fixed: None }
    }
    fn roll(&mut self, ctx: &mut Ctx) -> u32 {
        if self.rate == 0 || self.left == 0 || !ctx.fchance(self.rate) {
            return 0;
        }
        self.left -= 1;
        self.kinds[ctx.f(self.kinds.len() as u64) as usize]
    }
}

/// A transient or lasting allocation fault during one call.
pub fn draw_plan(ctx: &mut Ctx) -> Plan {
    match ctx.f(5) {
        0 | 1 => Plan::Window { from: ctx.f(3) as u32, len: 1 },
        2 => Plan::Window { from: ctx.f(2) as u32, len: u32::MAX },
        3 => Plan::AtLeast([1usize, 16, 64, 128, 256, 1024][ctx.f(6) as usize]),
        _ => Plan::Budget([0usize, 64, 256, 1024, 4096][ctx.f(5) as usize]),
    }
}

pub struct Built {
    pub acked: M,
    /// a nested builder was abandoned, so nothing more may be accepted
    pub stuck: bool,
}

fn is_oom(e: &BuildError) -> bool {
    matches!(e, BuildError::TryReserveError(_))
}

/// Ok(true): acknowledged; Ok(false): refused because allocations failed.
fn judge<T>(ctx: &mut Ctx, what: &str, r: Result<T, BuildError>, fired: u32) -> R<Option<T>> {
    match r {
        Ok(v) => {
            ctx.ev(format!("{what} ok"));
            Ok(Some(v))
        }
        Err(e) if fired > 0 && is_oom(&e) => {
            ctx.ev(format!("{what} out of memory"));
            Ok(None)
        }
        Err(e) => viol("valid-push-refused", format!("{what}: refused with {e:?}")),
    }
}

pub const BIG_KEY: usize = 65_536;

thread_local! {
    static BIG: String = "k".repeat(2 * BIG_KEY + 10);
    static HUGE: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn big_key<T>(n: usize, f: impl FnOnce(&str) -> T) -> T {
    BIG.with(|b| f(&b[..n]))
}

pub const MAX_STR: usize = (1 << 28) - 1;

/// A string one byte too long for the format, zero-filled lazily so it costs address space only.
pub fn with_huge<T>(f: impl FnOnce(&str) -> T) -> T {
    HUGE.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            // SAFETY: zeroes are valid UTF-8; alloc_zeroed gives untouched pages.
            *h = Some(unsafe { String::from_utf8_unchecked(vec![0u8; MAX_STR + 1]) });
        }
        f(h.as_ref().unwrap())
    })
}

fn unwound(ctx: &mut Ctx, what: &str, f: impl FnOnce()) -> R {
    let r = catch_unwind(AssertUnwindSafe(f));
    let msg = take_panic();
    match r {
        Err(_) if msg.contains(INJECTED) => {
            ctx.fault("caller-unwind");
            ctx.ev(format!("{what} unwound"));
            Ok(())
        }
        Err(_) => viol("panic", format!("{what}: {msg}")),
        Ok(()) => Ok(()), // the conversion was not called; nothing happened or it was refused
    }
}

fn push_arr<A: ArrB>(ctx: &mut Ctx, b: &mut A, m: &M, plan: Plan, re: bool) -> R<bool> {
    let what = format!("push {}", m.brief());
    let (r, fired, _) = match m {
        M::Null => ctx.sut_plan(&what, plan, || b.null())?,
        M::Bool(x) => ctx.sut_plan(&what, plan, || b.b(*x))?,
        M::Num(n) => ctx.sut_plan(&what, plan, || b.num(n))?,
        M::Str(s) if re => ctx.sut_plan(&what, plan, || b.s(ReStr(s)))?,
        M::Str(s) => ctx.sut_plan(&what, plan, || b.s(s))?,
        _ => unreachable!(),
    };
    Ok(judge(ctx, &what, r, fired)?.is_some())
}

fn push_obj<O: ObjB>(ctx: &mut Ctx, b: &mut O, k: &str, m: &M, plan: Plan, re: bool) -> R<bool> {
    let what = format!("push {}:{}", brief_str(k), m.brief());
    let (r, fired, _) = match m {
        M::Null => ctx.sut_plan(&what, plan, || b.null(k))?,
        M::Bool(x) => ctx.sut_plan(&what, plan, || b.b(k, *x))?,
        M::Num(n) => ctx.sut_plan(&what, plan, || b.num(k, n))?,
        M::Str(s) if re => ctx.sut_plan(&what, plan, || b.s(ReStr(k), ReStr(s)))?,
        M::Str(s) => ctx.sut_plan(&what, plan, || b.s(k, s))?,
        _ => unreachable!(),
    };
    Ok(judge(ctx, &what, r, fired)?.is_some())
}

/// Every operation on a container whose nested builder was abandoned must be refused.
fn probe_stuck_arr<A: ArrB>(ctx: &mut Ctx, b: &mut A) -> R {
    let k = 1 + ctx.f(3);
    for _ in 0..k {
        let i = ctx.f(6);
        let ok = match i {
            0 => ctx.sut("push on a stuck array", || b.null().is_ok())?,
            1 => ctx.sut("push on a stuck array", || b.b(true).is_ok())?,
            2 => ctx.sut("push on a stuck array", || b.num(Number::from(1)).is_ok())?,
            3 => ctx.sut("push on a stuck array", || b.s("stuck").is_ok())?,
            4 => ctx.sut("push on a stuck array", || b.arr(0).is_ok())?,
            _ => ctx.sut("push on a stuck array", || b.obj(0, true).is_ok())?,
        };
        ctx.ev(format!("stuck array push kind {i}: accepted={ok}"));
        if ok {
            return viol("accepted-while-uncompleted", format!("array accepted a push (kind {i}) although its nested builder was not finished"));
        }
    }
    Ok(())
}

fn probe_stuck_obj<O: ObjB>(ctx: &mut Ctx, b: &mut O) -> R {
    let n = 1 + ctx.f(3);
    for _ in 0..n {
        let i = ctx.f(6);
        let k = "stuck-key";
        let ok = match i {
            0 => ctx.sut("push on a stuck object", || b.null(k).is_ok())?,
            1 => ctx.sut("push on a stuck object", || b.b(k, true).is_ok())?,
            2 => ctx.sut("push on a stuck object", || b.num(k, Number::from(1)).is_ok())?,
            3 => ctx.sut("push on a stuck object", || b.s(k, "stuck").is_ok())?,
            4 => ctx.sut("push on a stuck object", || b.arr(k, 0).is_ok())?,
            _ => ctx.sut("push on a stuck object", || b.obj(k, 0, true).is_ok())?,
        };
        ctx.ev(format!("stuck object push kind {i}: accepted={ok}"));
        if ok {
            return viol("accepted-while-uncompleted", format!("object accepted a push (kind {i}) although its nested builder was not finished"));
        }
    }
    Ok(())
}

/// Leaves a nested builder unfinished in one of the ways user code does.
/// `early` decides between dropping, forgetting, and a finish that has to be refused.
fn misuse_child_arr(ctx: &mut Ctx, mut c: ArrayRefBuilder<'_>, n: u16, kind: u32) -> R {
    let k = ctx.f(n as u64 + 1) as u16;
    let k = if kind == BADFINISH && k == n { n.saturating_sub(1) } else { k };
    for i in 0..k {
        let r = ctx.sut("push into nested array", || c.num(Number::from(i)))?;
        judge(ctx, "push into nested array", r, 0)?;
    }
    match kind {
        FORGET if !crate::alloc::ledger_on() => std::mem::forget(c),
        BADFINISH if n > 0 => {
            let ok = ctx.sut("finish of an incomplete nested array", move || c.finish().is_ok())?;
            if ok {
                return viol("incomplete-finish-accepted", format!("nested array declared with {n} elements finished with {k}"));
            }
        }
        _ => ctx.sut("drop nested array", move || drop(c))?,
    }
    ctx.ev(format!("nested array({n}) abandoned after {k}"));
    Ok(())
}

fn misuse_child_obj(ctx: &mut Ctx, mut c: ObjectRefBuilder<'_>, n: u16, kind: u32) -> R {
    let k = ctx.f(n as u64 + 1) as u16;
    let k = if kind == BADFINISH && k == n { n.saturating_sub(1) } else { k };
    for i in 0..k {
        let key = format!("n{i:03}");
        let r = ctx.sut("push into nested object", || c.b(&key, true))?;
        judge(ctx, "push into nested object", r, 0)?;
    }
    match kind {
        FORGET if !crate::alloc::ledger_on() => std::mem::forget(c),
        BADFINISH if n > 0 => {
            let ok = ctx.sut("finish of an incomplete nested object", move || c.finish().is_ok())?;
            if ok {
                return viol("incomplete-finish-accepted", format!("nested object declared with {n} members finished with {k}"));
            }
        }
        _ => ctx.sut("drop nested object", move || drop(c))?,
    }
    ctx.ev(format!("nested object({n}) abandoned after {k}"));
    Ok(())
}

/// The document a finish returned has to be exactly what was acknowledged.
pub fn expect_doc(what: &str, bytes: &[u8], m: &M) -> R {
    match codec::decode(bytes) {
        Err(e) => viol("malformed", format!("{what}: malformed document: {e}; acknowledged {}", m.brief())),
        Ok(got) if !got.same(m) => {
            viol("wrong-content", format!("{what}: document is {}, acknowledged {}", got.brief(), m.brief()))
        }
        Ok(_) => Ok(()),
    }
}

fn phantom(ctx: &mut Ctx) -> M {
    match ctx.f(4) {
        0 => M::Str("phantom".repeat(40)),
        1 => M::Num(Number::from(424242u32)),
        2 => M::Str("p".into()),
        _ => M::Bool(true),
    }
}

enum Child {
    Done(M),
    Refused,
    Stuck,
}

fn child_arr(ctx: &mut Ctx, r: B<ArrayRefBuilder<'_>>, fired: u32, v: &[M], d: &mut Dist, depth: usize, fp: Plan) -> R<Child> {
    let what = format!("push array({}) at depth {depth}", v.len());
    let Some(mut c) = judge(ctx, &what, r, fired)? else { return Ok(Child::Refused) };
    let got = fill_arr(ctx, &mut c, v, d, depth + 1)?;
    let (r, fired, _) = ctx.sut_plan("finish nested array", fp, move || c.finish())?;
    close(ctx, "nested array", r, fired, got)
}

fn child_obj(
    ctx: &mut Ctx,
    r: B<ObjectRefBuilder<'_>>,
    fired: u32,
    v: &[(String, M)],
    sorted: bool,
    d: &mut Dist,
    depth: usize,
    fp: Plan,
) -> R<Child> {
    let what = format!("push object({}, sorted={sorted}) at depth {depth}", v.len());
    let Some(mut c) = judge(ctx, &what, r, fired)? else { return Ok(Child::Refused) };
    let got = fill_obj(ctx, &mut c, v, sorted, d, depth + 1)?;
    let (r, fired, _) = ctx.sut_plan("finish nested object", fp, move || c.finish())?;
    close(ctx, "nested object", r, fired, got)
}

fn close(ctx: &mut Ctx, what: &str, r: B<&Yason>, fired: u32, got: Built) -> R<Child> {
    match r {
        Ok(_) if got.stuck => viol("incomplete-finish-accepted", format!("{what} finished although it holds an unfinished builder")),
        Ok(y) => {
            expect_doc(what, y.as_bytes(), &got.acked)?;
            ctx.ev(format!("finish {what}"));
            Ok(Child::Done(got.acked))
        }
        Err(_) if got.stuck => {
            ctx.ev(format!("finish {what} refused"));
            Ok(Child::Stuck)
        }
        Err(e) if fired > 0 && is_oom(&e) => Ok(Child::Stuck),
        Err(e) => viol("valid-finish-refused", format!("finish of a complete {what}: {e:?}")),
    }
}

/// Order in which an object's members are pushed, and whether it is announced as sorted.
pub fn arrange(ctx: &mut Ctx, v: &[(String, M)], d: &Dist) -> (Vec<(String, M)>, bool) {
    let mut w = v.to_vec();
    if let Some(s) = d.fixed {
        if s {
            w.sort_by(|a, b| key_cmp(&a.0, &b.0));
        }
        return (w, s);
    }
    match ctx.n(4) {
        3 => {
            w.sort_by(|a, b| key_cmp(&a.0, &b.0));
            (w, true)
        }
        2 => {
            w.sort_by(|a, b| key_cmp(&b.0, &a.0));
            (w, false)
        }
        _ => (w, false),
    }
}

pub fn fill_arr<A: ArrB>(ctx: &mut Ctx, b: &mut A, v: &[M], d: &mut Dist, depth: usize) -> R<Built> {
    let mut acked: Vec<M> = Vec::new();
    let mut next = 0;
    while acked.len() < v.len() {
        let mut plan = Plan::None;
        let mut re = false;
        match d.roll(ctx) {
            OOM => plan = draw_plan(ctx),
            REENTRANT => {
                re = true;
                ctx.fault("re-entrant-argument");
            }
            UNWIND => {
                if ctx.f(2) == 0 {
                    unwound(ctx, "push string", || drop(b.s(BadStr)))?
                } else {
                    unwound(ctx, "push number", || drop(b.num(BadNum)))?
                }
                continue;
            }
            PHANTOM => {
                let p = phantom(ctx);
                let plan = draw_plan(ctx);
                if push_arr(ctx, b, &p, plan, false)? {
                    acked.push(p);
                }
                continue;
            }
            BIGSTR => {
                let ok = with_huge(|s| ctx.sut("push of a string too long for the format", || b.s(s).is_ok()))?;
                ctx.fault("too-long-string");
                ctx.ev(format!("push huge string: accepted={ok}"));
                if ok {
                    return viol("oversize-accepted", "a string of 2^28 bytes was accepted");
                }
                continue;
            }
            DEEP if depth < LIMIT => {
                // declared bigger than any memory the call gets: has to fail before it counts
                let arr = ctx.f(2) == 0;
                let n = 1 + ctx.f(65_535) as u16;
                let plan = Plan::AtLeast(1);
                if arr {
                    let (r, fired, _) = ctx.sut_plan("push array without memory", plan, || b.arr(n).err())?;
                    if r.is_none() {
                        // there was room for it after all: now it is abandoned
                        ctx.ev(format!("push array({n}) unexpectedly had room, fired={fired}"));
                        return Ok(Built { acked: M::Arr(acked), stuck: true });
                    }
                } else {
                    let (r, _, _) = ctx.sut_plan("push object without memory", plan, || b.obj(n, false).err())?;
                    if r.is_none() {
                        ctx.ev(format!("push object({n}) unexpectedly had room"));
                        return Ok(Built { acked: M::Arr(acked), stuck: true });
                    }
                }
                ctx.ev(format!("nested container of {n} refused"));
                continue;
            }
            k @ (ABANDON | BADFINISH | FORGET) if depth < LIMIT => {
                let n = 1 + ctx.f(4) as u16;
                ctx.fault("abandoned-nested-builder");
                if ctx.f(2) == 0 {
                    let r = ctx.sut("push array", || b.arr(n))?;
                    if let Some(c) = judge(ctx, "push array", r, 0)? {
                        misuse_child_arr(ctx, c, n, k)?;
                    }
                } else {
                    let r = ctx.sut("push object", || b.obj(n, true))?;
                    if let Some(c) = judge(ctx, "push object", r, 0)? {
                        misuse_child_obj(ctx, c, n, k)?;
                    }
                }
                probe_stuck_arr(ctx, b)?;
                return Ok(Built { acked: M::Arr(acked), stuck: true });
            }
            _ => {}
        }
        let m = &v[next];
        if depth >= LIMIT && m.is_container() {
            ctx.fault("nested-too-deep");
            let ok = match m {
                M::Arr(w) => ctx.sut("push array beyond the nesting limit", || b.arr(w.len() as u16).is_ok())?,
                M::Obj(w) => ctx.sut("push object beyond the nesting limit", || b.obj(w.len() as u16, false).is_ok())?,
                _ => unreachable!(),
            };
            ctx.ev(format!("nested at depth {}: accepted={ok}", depth + 1));
            if ok {
                return viol("depth-limit", format!("a container at depth {} was accepted", depth + 1));
            }
            if push_arr(ctx, b, &M::Bool(false), Plan::None, false)? {
                acked.push(M::Bool(false));
            }
            next += 1;
            continue;
        }
        let child = match m {
            M::Arr(w) => {
                let (r, fired, _) = ctx.sut_plan("push array", plan, || b.arr(w.len() as u16))?;
                child_arr(ctx, r, fired, w, d, depth, Plan::None)?
            }
            M::Obj(w) => {
                let (w, sorted) = arrange(ctx, w, d);
                let (r, fired, _) = ctx.sut_plan("push object", plan, || b.obj(w.len() as u16, sorted))?;
                child_obj(ctx, r, fired, &w, sorted, d, depth, Plan::None)?
            }
            _ => {
                if push_arr(ctx, b, m, plan, re)? {
                    Child::Done(m.clone())
                } else {
                    Child::Refused
                }
            }
        };
        match child {
            Child::Done(m) => {
                acked.push(m);
                next += 1;
            }
            Child::Refused => {}
            Child::Stuck => {
                probe_stuck_arr(ctx, b)?;
                return Ok(Built { acked: M::Arr(acked), stuck: true });
            }
        }
    }
    if d.kinds.contains(&OVER) && d.rate > 0 && ctx.fchance(3) {
        ctx.fault("push-beyond-declared");
        let i = ctx.f(6);
        let ok = match i {
            0 => ctx.sut("push beyond the declared count", || b.null().is_ok())?,
            1 => ctx.sut("push beyond the declared count", || b.b(false).is_ok())?,
            2 => ctx.sut("push beyond the declared count", || b.num(Number::from(9)).is_ok())?,
            3 => ctx.sut("push beyond the declared count", || b.s("over").is_ok())?,
            4 => ctx.sut("push beyond the declared count", || b.arr(1).is_ok())?,
            _ => ctx.sut("push beyond the declared count", || b.obj(1, false).is_ok())?,
        };
        ctx.ev(format!("array over-push kind {i}: accepted={ok}"));
        if ok {
            return viol("over-push-accepted", format!("array declared with {} elements accepted one more (kind {i})", v.len()));
        }
    }
    Ok(Built { acked: M::Arr(acked), stuck: false })
}

pub fn fill_obj<O: ObjB>(
    ctx: &mut Ctx,
    b: &mut O,
    v: &[(String, M)],
    sorted: bool,
    d: &mut Dist,
    depth: usize,
) -> R<Built> {
    let mut acked: Vec<(String, M)> = Vec::new();
    let mut next = 0;
    while acked.len() < v.len() {
        let (key, m) = &v[next];
        let mut plan = Plan::None;
        let mut re = false;
        match d.roll(ctx) {
            OOM => plan = draw_plan(ctx),
            REENTRANT => {
                re = true;
                ctx.fault("re-entrant-argument");
            }
            UNWIND => {
                match ctx.f(4) {
                    0 => unwound(ctx, "push key", || drop(b.s(BadStr, "x")))?,
                    1 => unwound(ctx, "push string", || drop(b.s("unwound", BadStr)))?,
                    2 => unwound(ctx, "push number", || drop(b.num("unwound", BadNum)))?,
                    _ => unwound(ctx, "push nested", || drop(b.arr(BadStr, 1)))?,
                }
                continue;
            }
            PHANTOM => {
                // a different member under this member's key, so a trace of it would collide
                let p = phantom(ctx);
                let other = if ctx.f(2) == 0 || sorted { key.clone() } else { format!("{key}\u{1}ph{}", acked.len()) };
                let taken = v.iter().any(|e| e.0 == other) || acked.iter().any(|e| e.0 == other);
                let other = if taken || other.len() > 65_535 { key.clone() } else { other };
                let plan = draw_plan(ctx);
                if push_obj(ctx, b, &other, &p, plan, false)? {
                    if other == *key {
                        next += 1;
                    }
                    acked.push((other, p));
                }
                continue;
            }
            BIGKEY => {
                ctx.fault("too-long-key");
                let n = BIG_KEY + [0usize, 1, 7][ctx.f(3) as usize];
                let i = ctx.f(6);
                let ok = big_key(n, |k| {
                    ctx.sut("push under a key too long for the format", || match i {
                        0 => b.null(k).is_ok(),
                        1 => b.b(k, true).is_ok(),
                        2 => b.num(k, Number::from(3)).is_ok(),
                        3 => b.s(k, "v").is_ok(),
                        4 => b.arr(k, 1).is_ok(),
                        _ => b.obj(k, 1, false).is_ok(),
                    })
                })?;
                ctx.ev(format!("push under a {n}-byte key (kind {i}): accepted={ok}"));
                if ok {
                    return viol("oversize-accepted", format!("a key of {n} bytes was accepted (kind {i})"));
                }
                continue;
            }
            BIGSTR => {
                ctx.fault("too-long-string");
                let ok = with_huge(|s| ctx.sut("push of a string too long for the format", || b.s(key, s).is_ok()))?;
                ctx.ev(format!("push huge string: accepted={ok}"));
                if ok {
                    return viol("oversize-accepted", "a string of 2^28 bytes was accepted");
                }
                continue;
            }
            DEEP if depth < LIMIT => {
                let arr = ctx.f(2) == 0;
                let n = 1 + ctx.f(65_535) as u16;
                let plan = Plan::AtLeast(1);
                let accepted = if arr {
                    ctx.sut_plan("push array without memory", plan, || b.arr(key, n).is_ok())?.0
                } else {
                    ctx.sut_plan("push object without memory", plan, || b.obj(key, n, false).is_ok())?.0
                };
                ctx.ev(format!("nested container of {n} without memory: accepted={accepted}"));
                if accepted {
                    return Ok(Built { acked: M::Obj(acked), stuck: true });
                }
                continue;
            }
            k @ (ABANDON | BADFINISH | FORGET) if depth < LIMIT => {
                let n = 1 + ctx.f(4) as u16;
                ctx.fault("abandoned-nested-builder");
                if ctx.f(2) == 0 {
                    let r = ctx.sut("push array", || b.arr(key, n))?;
                    if let Some(c) = judge(ctx, "push array", r, 0)? {
                        misuse_child_arr(ctx, c, n, k)?;
                    }
                } else {
                    let r = ctx.sut("push object", || b.obj(key, n, true))?;
                    if let Some(c) = judge(ctx, "push object", r, 0)? {
                        misuse_child_obj(ctx, c, n, k)?;
                    }
                }
                probe_stuck_obj(ctx, b)?;
                return Ok(Built { acked: M::Obj(acked), stuck: true });
            }
            _ => {}
        }
        if depth >= LIMIT && m.is_container() {
            ctx.fault("nested-too-deep");
            let ok = match m {
                M::Arr(w) => ctx.sut("push array beyond the nesting limit", || b.arr(key, w.len() as u16).is_ok())?,
                M::Obj(w) => ctx.sut("push object beyond the nesting limit", || b.obj(key, w.len() as u16, false).is_ok())?,
                _ => unreachable!(),
            };
            ctx.ev(format!("nested at depth {}: accepted={ok}", depth + 1));
            if ok {
                return viol("depth-limit", format!("a container at depth {} was accepted", depth + 1));
            }
            if push_obj(ctx, b, key, &M::Bool(false), Plan::None, false)? {
                acked.push((key.clone(), M::Bool(false)));
            }
            next += 1;
            continue;
        }
        let child = match m {
            M::Arr(w) => {
                let (r, fired, _) = ctx.sut_plan("push array", plan, || b.arr(key, w.len() as u16))?;
                child_arr(ctx, r, fired, w, d, depth, Plan::None)?
            }
            M::Obj(w) => {
                let (w, srt) = arrange(ctx, w, d);
                let (r, fired, _) = ctx.sut_plan("push object", plan, || b.obj(key, w.len() as u16, srt))?;
                child_obj(ctx, r, fired, &w, srt, d, depth, Plan::None)?
            }
            _ => {
                if push_obj(ctx, b, key, m, plan, re)? {
                    Child::Done(m.clone())
                } else {
                    Child::Refused
                }
            }
        };
        match child {
            Child::Done(m) => {
                acked.push((key.clone(), m));
                next += 1;
            }
            Child::Refused => {}
            Child::Stuck => {
                probe_stuck_obj(ctx, b)?;
                return Ok(Built { acked: M::Obj(acked), stuck: true });
            }
        }
    }
    if d.kinds.contains(&OVER) && d.rate > 0 && ctx.fchance(3) {
        ctx.fault("push-beyond-declared");
        let i = ctx.f(6);
        let k = "~~~~over";
        let ok = match i {
            0 => ctx.sut("push beyond the declared count", || b.null(k).is_ok())?,
            1 => ctx.sut("push beyond the declared count", || b.b(k, false).is_ok())?,
            2 => ctx.sut("push beyond the declared count", || b.num(k, Number::from(9)).is_ok())?,
            3 => ctx.sut("push beyond the declared count", || b.s(k, "over").is_ok())?,
            4 => ctx.sut("push beyond the declared count", || b.arr(k, 1).is_ok())?,
            _ => ctx.sut("push beyond the declared count", || b.obj(k, 1, false).is_ok())?,
        };
        ctx.ev(format!("object over-push kind {i}: accepted={ok}"));
        if ok {
            return viol("over-push-accepted", format!("object declared with {} members accepted one more (kind {i})", v.len()));
        }
    }
    Ok(Built { acked: M::Obj(acked), stuck: false })
}

/// What came of building a whole document.
pub enum Doc {
    /// finished; the bytes of the document and what was acknowledged
    Done(Vec<u8>, M),
    /// refused (stuck, or out of memory)
    Refused,
}

fn done(ctx: &mut Ctx, r: B<Vec<u8>>, fired: u32, got: Built) -> R<Doc> {
    match r {
        Ok(_) if got.stuck => viol("incomplete-finish-accepted", "a document was finished although a nested builder was not"),
        Ok(bytes) => {
            ctx.ev(format!("finished, {} bytes", bytes.len()));
            Ok(Doc::Done(bytes, got.acked))
        }
        Err(e) if got.stuck => {
            ctx.ev(format!("finish refused: {e}"));
            Ok(Doc::Refused)
        }
        Err(e) if fired > 0 && is_oom(&e) => Ok(Doc::Refused),
        Err(e) => viol("valid-finish-refused", format!("finish of a complete document: {e:?}")),
    }
}

/// Builds `m` (a container) with an owned builder.
pub fn build_owned(ctx: &mut Ctx, m: &M, d: &mut Dist) -> R<Doc> {
    match m {
        M::Arr(v) => {
            let r = ctx.sut("new array", || ArrayBuilder::try_new(v.len() as u16))?;
            let Some(mut b) = judge(ctx, "new array builder", r, 0)? else { return Ok(Doc::Refused) };
            let got = fill_arr(ctx, &mut b, v, d, 1)?;
            let r = ctx.sut("finish array", move || b.finish())?;
            done(ctx, r.map(|y| y.as_bytes().to_vec()), 0, got)
        }
        M::Obj(v) => {
            let (v, sorted) = arrange(ctx, v, d);
            let r = ctx.sut("new object", || ObjectBuilder::try_new(v.len() as u16, sorted))?;
            let Some(mut b) = judge(ctx, "new object builder", r, 0)? else { return Ok(Doc::Refused) };
            let got = fill_obj(ctx, &mut b, &v, sorted, d, 1)?;
            let r = ctx.sut("finish object", move || b.finish())?;
            done(ctx, r.map(|y| y.as_bytes().to_vec()), 0, got)
        }
        _ => {
            let (r, fired, _) = ctx.sut_plan("scalar", Plan::None, || plain(m))?;
            done(ctx, r.map(|y| y.as_bytes().to_vec()), fired, Built { acked: m.clone(), stuck: false })
        }
    }
}

/// Builds `m` by reference at the end of `buf`; `Done` carries a copy of the returned document.
pub fn build_ref(ctx: &mut Ctx, buf: &mut Vec<u8>, m: &M, d: &mut Dist) -> R<Doc> {
    match m {
        M::Arr(v) => {
            let r = ctx.sut("new array", || ArrayRefBuilder::try_new(buf, v.len() as u16))?;
            let Some(mut b) = judge(ctx, "new array builder", r, 0)? else { return Ok(Doc::Refused) };
            let got = fill_arr(ctx, &mut b, v, d, 1)?;
            let r = ctx.sut("finish array", move || b.finish())?;
            done(ctx, r.map(|y| y.as_bytes().to_vec()), 0, got)
        }
        M::Obj(v) => {
            let (v, sorted) = arrange(ctx, v, d);
            let r = ctx.sut("new object", || ObjectRefBuilder::try_new(buf, v.len() as u16, sorted))?;
            let Some(mut b) = judge(ctx, "new object builder", r, 0)? else { return Ok(Doc::Refused) };
            let got = fill_obj(ctx, &mut b, &v, sorted, d, 1)?;
            let r = ctx.sut("finish object", move || b.finish())?;
            done(ctx, r.map(|y| y.as_bytes().to_vec()), 0, got)
        }
        _ => {
            let plan = if d.kinds.contains(&OOM) && d.rate > 0 && ctx.fchance(3) { draw_plan(ctx) } else { Plan::None };
            let (r, fired, _) = ctx.sut_plan("scalar", plan, || plain_into(m, buf).map(|y| unarmed(|| y.as_bytes().to_vec())))?;
            done(ctx, r, fired, Built { acked: m.clone(), stuck: false })
        }
    }
}
