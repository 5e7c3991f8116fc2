//! Per-function control-flow facts: successors (normal control flow only),
//! reverse post-order, loop heads, error-only blocks, control dependence.
use crate::ir::*;

pub struct Cfg {
    pub succ: Vec<Vec<usize>>,
    pub pred: Vec<Vec<usize>>,
    pub rpo: Vec<usize>,
    pub rpo_ix: Vec<usize>,
    pub loop_head: Vec<bool>,
    /// block lies on paths that only lead to `_0 = Err(..)` or to a panic
    pub pruned: Vec<bool>,
    /// subset of pruned: the block can still reach Return (an error return)
    pub err_ret: Vec<bool>,
    /// blocks whose execution is decided by this list of switch blocks
    pub cdep: Vec<Vec<usize>>,
}

pub fn succs(b: &Block) -> Vec<usize> {
    match &b.t {
        Tm::Goto(t) => vec![*t],
        Tm::Switch(_, ts, e) => {
            let mut v: Vec<usize> = ts.iter().map(|x| x.1).collect();
            v.push(*e);
            v.sort();
            v.dedup();
            v
        }
        Tm::Drop(_, t) => vec![*t],
        Tm::Call { t, .. } => t.iter().cloned().collect(),
        Tm::Assert { t, .. } => vec![*t],
        _ => vec![],
    }
}

fn sets_err(p: &Prog, f: &Func, b: &Block) -> bool {
    if !p.is_result(f.locals[0].t) {
        return false;
    }
    for s in &b.s {
        if let St::Assign(pl, rv, _) = s {
            if pl.l == 0 && pl.p.is_empty() {
                if let Rv::Agg(Ak::Adt(d, v), _) = rv {
                    if d == "std::result::Result" && *v == 1 {
                        return true;
                    }
                }
            }
        }
    }
    if let Tm::Call { f: c, dest, .. } = &b.t {
        if dest.l == 0 && dest.p.is_empty() {
            if let Some(c) = p.callee_of(c) {
                if c.base.ends_with("from_residual") {
                    return true;
                }
            }
        }
    }
    false
}

impl Cfg {
    pub fn build(p: &Prog, f: &Func) -> Cfg {
        let n = f.blocks.len();
        let succ: Vec<Vec<usize>> = f.blocks.iter().map(succs).collect();
        let mut pred = vec![vec![]; n];
        for (i, s) in succ.iter().enumerate() {
            for t in s {
                pred[*t].push(i);
            }
        }
        // rpo
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut onstack = vec![false; n];
        let mut loop_head = vec![false; n];
        let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
        seen[0] = true;
        onstack[0] = true;
        while let Some((b, i)) = stack.pop() {
            if i < succ[b].len() {
                stack.push((b, i + 1));
                let t = succ[b][i];
                if onstack[t] {
                    loop_head[t] = true;
                }
                if !seen[t] {
                    seen[t] = true;
                    onstack[t] = true;
                    stack.push((t, 0));
                }
            } else {
                onstack[b] = false;
                post.push(b);
            }
        }
        post.reverse();
        let rpo = post;
        let mut rpo_ix = vec![usize::MAX; n];
        for (i, b) in rpo.iter().enumerate() {
            rpo_ix[*b] = i;
        }
        // pruning
        let mut pruned = vec![false; n];
        let mut errb = vec![false; n];
        for i in 0..n {
            errb[i] = sets_err(p, f, &f.blocks[i]);
            pruned[i] = errb[i]
                || (succ[i].is_empty() && !matches!(f.blocks[i].t, Tm::Return));
        }
        loop {
            let mut ch = false;
            for &b in rpo.iter().rev() {
                if !pruned[b]
                    && !succ[b].is_empty()
                    && succ[b].iter().all(|t| pruned[*t])
                {
                    pruned[b] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // blocks that reach an error store (as opposed to only panics)
        let mut err_ret = errb.clone();
        loop {
            let mut ch = false;
            for &b in rpo.iter().rev() {
                if pruned[b] && !err_ret[b] && succ[b].iter().any(|t| err_ret[*t]) {
                    err_ret[b] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // post-dominators on the pruned graph, virtual exit = n
        let live = |b: usize| !pruned[b];
        let mut rs: Vec<Vec<usize>> = vec![vec![]; n + 1]; // reverse-graph succ: exit -> returns
        for b in 0..n {
            if !live(b) || !seen[b] {
                continue;
            }
            if matches!(f.blocks[b].t, Tm::Return) {
                rs[n].push(b);
            }
            for &t in &succ[b] {
                if live(t) {
                    rs[t].push(b);
                }
            }
        }
        let mut order = vec![];
        let mut s2 = vec![false; n + 1];
        let mut st: Vec<(usize, usize)> = vec![(n, 0)];
        s2[n] = true;
        while let Some((b, i)) = st.pop() {
            if i < rs[b].len() {
                st.push((b, i + 1));
                let t = rs[b][i];
                if !s2[t] {
                    s2[t] = true;
                    st.push((t, 0));
                }
            } else {
                order.push(b);
            }
        }
        order.reverse();
        let mut ix = vec![usize::MAX; n + 1];
        for (i, b) in order.iter().enumerate() {
            ix[*b] = i;
        }
        let mut ip = vec![usize::MAX; n + 1];
        ip[n] = n;
        loop {
            let mut ch = false;
            for &b in order.iter().skip(1) {
                let mut preds: Vec<usize> =
                    succ[b].iter().cloned().filter(|t| live(*t)).collect();
                if matches!(f.blocks[b].t, Tm::Return) {
                    preds.push(n);
                }
                let mut new = usize::MAX;
                for q in preds {
                    if ix[q] == usize::MAX || ip[q] == usize::MAX {
                        continue;
                    }
                    new = if new == usize::MAX {
                        q
                    } else {
                        let (mut x, mut y) = (new, q);
                        while x != y {
                            while ix[x] > ix[y] {
                                x = ip[x];
                            }
                            while ix[y] > ix[x] {
                                y = ip[y];
                            }
                        }
                        x
                    };
                }
                if new != ip[b] {
                    ip[b] = new;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cdep: Vec<Vec<usize>> = vec![vec![]; n];
        for a in 0..n {
            if !live(a) || !seen[a] {
                continue;
            }
            let ts: Vec<usize> = succ[a].iter().cloned().filter(|t| live(*t)).collect();
            if ts.len() < 2 {
                continue;
            }
            for t in ts {
                let mut x = t;
                while x != ip[a] && x != n && x != usize::MAX {
                    if !cdep[x].contains(&a) {
                        cdep[x].push(a);
                    }
                    x = ip[x];
                }
            }
        }
        // pruned blocks: controlled by the switch that leads into them
        for a in 0..n {
            if !seen[a] || !live(a) || succ[a].len() < 2 {
                continue;
            }
            let mut work: Vec<usize> =
                succ[a].iter().cloned().filter(|t| !live(*t)).collect();
            let mut vis = vec![];
            while let Some(x) = work.pop() {
                if vis.contains(&x) || live(x) {
                    continue;
                }
                vis.push(x);
                if !cdep[x].contains(&a) {
                    cdep[x].push(a);
                }
                work.extend(succ[x].iter().cloned());
            }
        }
        Cfg { succ, pred, rpo, rpo_ix, loop_head, pruned, err_ret, cdep }
    }
}

/// strongly connected component of each block: 0 when the block lies on no cycle
pub fn scc_ids(f: &Func) -> Vec<usize> {
    let n = f.blocks.len();
    let succ: Vec<Vec<usize>> = f.blocks.iter().map(succs).collect();
    let mut order = vec![];
    let mut seen = vec![false; n];
    for r in 0..n {
        if seen[r] {
            continue;
        }
        seen[r] = true;
        let mut st = vec![(r, 0)];
        while let Some((b, i)) = st.pop() {
            if let Some(&t) = succ[b].get(i) {
                st.push((b, i + 1));
                if !seen[t] {
                    seen[t] = true;
                    st.push((t, 0));
                }
            } else {
                order.push(b);
            }
        }
    }
    let mut pred = vec![vec![]; n];
    for b in 0..n {
        for &t in &succ[b] {
            pred[t].push(b);
        }
    }
    let mut id = vec![usize::MAX; n];
    let mut next = 1;
    for &r in order.iter().rev() {
        if id[r] != usize::MAX {
            continue;
        }
        let mut c = vec![];
        let mut st = vec![r];
        id[r] = next;
        while let Some(b) = st.pop() {
            c.push(b);
            for &q in &pred[b] {
                if id[q] == usize::MAX {
                    id[q] = next;
                    st.push(q);
                }
            }
        }
        if c.len() == 1 && !succ[r].contains(&r) {
            id[r] = 0;
        } else {
            next += 1;
        }
    }
    id
}
