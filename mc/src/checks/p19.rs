//! Editing a table through the API keeps the file's bookkeeping consistent.
use super::common::*;
use super::ops::*;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use vpin::vpx::AddImageResult;

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.rule("all sequences of table edits up to the depth from several start tables on the real file, every stream compared with a model that applies the edit; all sequences of in-memory additions and replacements up to a depth over image names that are equal, differ in case, are empty or not ASCII");
    let donor = Donor::new(&ctx.scratch);
    let spec = &donor.spec;
    let look = Look { content: true, mac: true, ..Look::default() };
    let rich = starts(&donor, th);
    let alphabet = vec![Op::AddImage(0), Op::AddImage(1), Op::AddImage(2), Op::AddItem(0), Op::AddItem(1), Op::SetScript(0), Op::SetScript(2), Op::SaveName(1), Op::SaveCode(3), Op::Webp, Op::AddCollection, Op::SetInfo(0), Op::SetInfo(1), Op::Rewrite, Op::Reassemble, Op::Lock];
    Explore { ctx, donor: &donor, alphabet, depth: if th { 4 } else { 3 }, look, keep: false }.run(&rich);
    // large parts and many parts
    use super::large::{some, COUNTED, SIZED};
    on_large(ctx, &donor, look, &some(th, &[&SIZED[..], &COUNTED[..]].concat(), if th { 1 } else { 3 }), &[Op::AddImage(0), Op::AddItem(0), Op::SaveCode(3), Op::SetScript(0), Op::AddImage(0)]);
    // in memory
    let names = ["a", "A", "b", "", "\u{e9}", "\u{c9}", "a ", "aa"];
    let mut t = Table::new(spec, 1072);
    for (i, n) in names.iter().enumerate() {
        t.images.push(img(n, i, 0));
    }
    let src = t.bytes();
    let depth = if th { 6 } else { 5 };
    let starts: Vec<Vec<usize>> = vec![vec![], vec![0], vec![2, 0], vec![0, 2, 1], vec![4, 3]];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all: Vec<Vec<usize>> = vec![];
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..names.len()).map(move |k| { let mut t = s.clone(); t.push(k); t })).collect();
        if all.len() + seqs.len() < 400_000 {
            all.extend(seqs.iter().cloned());
        }
    }
    for (si, st) in starts.iter().enumerate() {
        let mut t0 = Table::new(spec, 1072);
        for k in st {
            t0.images.push(img(names[*k], *k, 9));
        }
        let b0 = t0.bytes();
        let chunks: Vec<&[Vec<usize>]> = all.chunks(64).collect();
        on_threads(&chunks, |chunk| {
            let donors = load(&src).unwrap().images;
            let mut outs = vec![];
            for s in chunk.iter() {
                if ctx.too_many() {
                    return;
                }
                let label = format!("images/start{si}/{s:?}").replace(' ', "");
                if !ctx.wants(&label) {
                    continue;
                }
                let f = || -> Result<u64, String> {
                    let mut v = load(&b0)?;
                    let mut want: Vec<Vec<u8>> = t0.images.clone();
                    let mut wn: Vec<&str> = st.iter().map(|k| names[*k]).collect();
                    for k in s {
                        let r = v.add_or_replace_image(donors[*k].clone());
                        match (wn.iter().position(|n| n.eq_ignore_ascii_case(names[*k])), r) {
                            (Some(p), AddImageResult::Replaced(o)) => {
                                if o.name != wn[p] {
                                    return Err(format!("adding {:?} returned {:?} as replaced, it was {:?}", names[*k], o.name, wn[p]));
                                }
                                want[p] = img(names[*k], *k, 0);
                                wn[p] = names[*k];
                            }
                            (None, AddImageResult::Added) => {
                                want.push(img(names[*k], *k, 0));
                                wn.push(names[*k]);
                            }
                            (p, AddImageResult::Added) => return Err(format!("{:?} was added, position {p:?} has that name", names[*k])),
                            (p, AddImageResult::Replaced(o)) => return Err(format!("{:?} replaced {:?}, expected {p:?}", names[*k], o.name)),
                        }
                    }
                    let mut e = Table::new(spec, 1072);
                    e.images = want;
                    match diff_streams(&e.streams(), &dump(&save(&v)?)?) {
                        Some(d) => Err(d),
                        None => Ok(hash_of(&wn)),
                    }
                };
                match guard(f) {
                    Ok(h) => outs.push(h),
                    Err(_) => {
                        ctx.case(&label, f);
                    }
                }
            }
            ctx.bulk(outs.len() as u64, outs);
        });
    }
    // items of every kind, added one after another and in every ordered pair
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let items: Vec<Vec<u8>> = spec.items().iter().map(|l| {
        let b = g.base_vals(l);
        g.item_bytes(l, &b.iter().collect::<Vec<_>>())
    }).collect();
    let mut t = Table::new(spec, 1081);
    t.items = items.clone();
    let src = t.bytes();
    let n = items.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    on_threads(&pairs, |(a, b)| {
        ctx.case(&format!("items/{a}+{b}"), || {
            let mut v = load(&Table::new(spec, 1081).bytes())?;
            let mut d: Vec<Option<_>> = load(&src)?.gameitems.into_iter().map(Some).collect();
            v.add_game_item(d[*a].take().unwrap());
            let second = match d[*b].take() {
                Some(x) => x,
                None => load(&src)?.gameitems.remove(*b),
            };
            v.add_game_item(second);
            let mut e = Table::new(spec, 1081);
            e.items = vec![items[*a].clone(), items[*b].clone()];
            match diff_streams(&e.streams(), &dump(&save(&v)?)?) {
                Some(d) => Err(d),
                None => Ok(hash_of(&(a, b))),
            }
        });
    });
}

fn img(name: &str, k: usize, gen_: u8) -> Vec<u8> {
    Img { name: name.chars().map(|c| c as u8).collect(), ..Img::jpeg("", "c:\\x.png", &[k as u8, gen_, 7]) }.enc()
}
