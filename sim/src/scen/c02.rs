//! A finished document contains exactly the acknowledged pushes.

use crate::builder::*;
use crate::ctx::{viol, Ctx, R};
use crate::model::{gen_container, Knobs};
use crate::reader::yason_is;
use yason::Yason;

pub fn run(ctx: &mut Ctx) -> R {
    let k = Knobs::draw(ctx, 60);
    let m = gen_container(ctx, &k);
    ctx.ev(format!("plan {}", m.brief()));
    let mut kinds = vec![OOM, UNWIND, PHANTOM, BIGKEY, DEEP, OVER, REENTRANT];
    if ctx.idx % 40 == 7 {
        kinds.push(BIGSTR);
    }
    let mut d = Dist::draw(ctx, &kinds);
    let doc = if ctx.n(2) == 0 {
        build_owned(ctx, &m, &mut d)?
    } else {
        let pre = ctx.n(20) as usize;
        let mut buf = Vec::with_capacity(pre + ctx.n(300) as usize);
        buf.resize(pre, 0xee);
        build_ref(ctx, &mut buf, &m, &mut d)?
    };
    if let Doc::Done(bytes, acked) = doc {
        expect_doc("finished document", &bytes, &acked)?;
        let r = ctx.sut("read", || yason_is(unsafe { Yason::new_unchecked(&bytes) }, &acked))?;
        if let Err(e) = r {
            return viol("wrong-content", format!("{e}; acknowledged {}", acked.brief()));
        }
        ctx.probe("finished");
    } else {
        ctx.probe("refused");
    }
    Ok(())
}
