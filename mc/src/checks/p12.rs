//! Locking and unlocking follow a strict two-state protocol.
use super::common::*;
use super::ops::*;
use crate::cont::*;
use crate::fw::*;
use crate::spec::*;

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.rule("all sequences of lock, unlock and other operations up to the depth, on one handle and reopened, from every class of stored lock counter (absent, 0, 1, 2, both sides of the sign bit and of the wrap-around) and file version; the reported state and change, the bytes of an untouched file and every stream of a changed one are compared with a two-state machine");
    ctx.assume("one handle at a time is used to modify a file");
    let donor = Donor::new(&ctx.scratch);
    let spec = &donor.spec;
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let look = Look { lock: true, ..Look::default() };
    let mut st: Vec<(String, Vec<u8>)> = vec![];
    let counters = [None, Some(0u32), Some(1), Some(2), Some(3), Some(254), Some(255), Some(0x7fff_fffe), Some(0x7fff_ffff), Some(0x8000_0000), Some(0xffff_fffe), Some(u32::MAX)];
    for c in counters {
        for ver in VERSIONS {
            let mut t = Table::new(spec, ver);
            t.gamedata = header_base(&g, ver);
            t.set("TLCK", c.map(|c| rec("TLCK", &c.to_le_bytes())).unwrap_or_default());
            st.push((format!("counter={c:?}/{ver}"), t.bytes()));
        }
    }
    Explore { ctx, donor: &donor, alphabet: vec![Op::Lock, Op::Unlock, Op::Reopen], depth: if th { 7 } else { 5 }, look, keep: false }.run(&st);
    Explore { ctx, donor: &donor, alphabet: vec![Op::Lock, Op::Unlock], depth: if th { 8 } else { 5 }, look, keep: true }.run(&st);
    let rich = starts(&donor, th);
    let alphabet = vec![Op::Lock, Op::Unlock, Op::SaveName(1), Op::SaveCode(2), Op::Webp, Op::Import(1), Op::Import(2), Op::Compact, Op::Rewrite, Op::Reassemble, Op::AddImage(0), Op::AddItem(1), Op::SetScript(0), Op::SetInfo(1), Op::Reopen, Op::Create];
    Explore { ctx, donor: &donor, alphabet, depth: if th { 4 } else { 3 }, look, keep: false }.run(&rich);
    let alphabet = vec![Op::Lock, Op::Unlock, Op::SaveName(0), Op::SaveCode(0), Op::SaveCode(2), Op::Webp];
    Explore { ctx, donor: &donor, alphabet, depth: if th { 6 } else { 4 }, look, keep: true }.run(&rich);
    // large parts and many parts
    use super::large::{some, COUNTED, SIZED};
    on_large(ctx, &donor, look, &some(th, &[&SIZED[..], &COUNTED[..]].concat(), if th { 1 } else { 4 }), &[Op::Lock, Op::Unlock, Op::Lock]);
    // the lock change must not depend on, or touch, any other part: header sizes around every sector size
    let sizes: Vec<usize> = if th { (0..9000).step_by(7).chain(3800..4300).collect() } else { (0..5000).step_by(97).chain(3900..4110).collect() };
    on_threads(&sizes, |n| {
        let label = format!("script length {n}");
        ctx.case(&label, || {
            let mut t = Table::new(spec, 1072);
            t.gamedata = header_base(&g, 1072);
            t.set("CODE", rec_len("CODE", &lstr(&vec![b'x'; *n]), 4));
            t.set("TLCK", vec![]);
            let mut w = World::new(&donor, ctx.scratch.join(format!("s{n}")), &t.bytes(), look);
            let mut h = 0;
            for op in [Op::Lock, Op::Lock, Op::Unlock, Op::Unlock, Op::Lock] {
                h = w.step(op).map_err(|e| format!("{op:?}: {e}"))?;
            }
            Ok(h)
        });
    });
}
