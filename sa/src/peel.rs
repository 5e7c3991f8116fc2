//! Loop peeling: the first round of every loop gets its own copy of the blocks (a rewrite that
//! keeps the meaning), so that what the first round establishes, such as a list having at least
//! one element, is not mixed with the state of never having entered the loop.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet};

/// natural loops: header -> blocks
fn loops(bs: &[Block]) -> BTreeMap<usize, BTreeSet<usize>> {
    let n = bs.len();
    let mut pred = vec![vec![]; n];
    let (mut state, mut post, mut st) = (vec![0u8; n], vec![], vec![(0usize, 0usize)]);
    state[0] = 1;
    let mut back = vec![];
    while let Some((b, i)) = st.pop() {
        let ss = bs[b].t.succs();
        if i < ss.len() {
            st.push((b, i + 1));
            let t = ss[i];
            pred[t].push(b);
            match state[t] {
                0 => {
                    state[t] = 1;
                    st.push((t, 0));
                }
                1 => back.push((b, t)),
                _ => {}
            }
        } else {
            state[b] = 2;
            post.push(b);
        }
    }
    let mut out: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (b, h) in back {
        let l = out.entry(h).or_insert_with(|| [h].into());
        let mut w = vec![b];
        while let Some(x) = w.pop() {
            if l.insert(x) {
                w.extend(pred[x].iter().cloned());
            }
        }
    }
    // an irreducible region (entered elsewhere than at the header) is left alone
    out.retain(|h, l| l.iter().all(|b| b == h || pred[*b].iter().all(|p| l.contains(p))) && (*h == 0) == false);
    out
}
fn retarget(t: &mut Tm, f: &dyn Fn(usize) -> usize) {
    match t {
        Tm::Goto(x) | Tm::Drop(_, x) | Tm::Call { t: Some(x), .. } | Tm::Assert { t: x, .. } => *x = f(*x),
        Tm::Switch(_, ts, e) => {
            for x in ts.iter_mut() {
                x.1 = f(x.1);
            }
            *e = f(*e);
        }
        _ => {}
    }
}
/// give the first round of the loop at `h` its own blocks
fn split(bs: &mut Vec<Block>, h: usize, l: &BTreeSet<usize>) -> BTreeMap<usize, usize> {
        let map: BTreeMap<usize, usize> = l.iter().enumerate().map(|(i, b)| (*b, bs.len() + i)).collect();
        let mut copy: Vec<Block> = l.iter().map(|b| bs[*b].clone()).collect();
        for c in copy.iter_mut() {
            retarget(&mut c.t, &|t| if t == h { t } else { *map.get(&t).unwrap_or(&t) });
        }
        for (b, bl) in bs.iter_mut().enumerate() {
            if !l.contains(&b) {
                retarget(&mut bl.t, &|t| if t == h { map[&h] } else { t });
            }
        }
        bs.extend(copy);
        map
}
fn peel_fn(bs: &mut Vec<Block>) {
    let mut done: BTreeSet<usize> = BTreeSet::new();
    loop {
        let ls = loops(bs);
        // innermost first
        let Some((h, l)) = ls.iter().filter(|(h, _)| !done.contains(h)).min_by_key(|(h, l)| (l.len(), **h)) else { return };
        if bs.len() + l.len() > 4000 {
            return;
        }
        let map = split(bs, *h, l);
        done.insert(*h);
        // loops inside the copy have been peeled already
        for x in l {
            if done.contains(x) && x != h {
                done.insert(map[x]);
            }
        }
    }
}
pub fn peel(p: &mut Prog) {
    for f in p.fns.iter_mut() {
        if !f.blocks.is_empty() {
            peel_fn(&mut f.blocks);
        }
    }
}
/// the first `k` rounds of every outermost loop
pub fn unroll(p: &mut Prog, k: usize) {
    for f in p.fns.iter_mut().filter(|f| !f.blocks.is_empty()) {
        let ls = loops(&f.blocks);
        for (h, l) in ls.iter().filter(|(h, _)| !ls.iter().any(|(g, m)| g != *h && m.contains(h))) {
            for _ in 0..k {
                if f.blocks.len() + l.len() < 4000 {
                    split(&mut f.blocks, *h, l);
                }
            }
        }
    }
}
