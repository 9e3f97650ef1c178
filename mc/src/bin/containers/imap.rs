//! P09: IndexedMap behaves as an insertion-ordered map with stable insertion indices for every history.
use mc::core::*;
use unreal_asset_base::containers::indexed_map::entry::Entry;
use unreal_asset_base::containers::IndexedMap;

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u8, u8),
    RemoveKey(u8),
    RemoveIndex(usize),
    EntryOr(u8, u8),
    EntryRemove(u8),
    SetByKey(u8, u8),
    SetByIndex(usize, u8),
    IterMutInc,
    CloneSwap,
    Collect,
}

#[derive(Clone, Default)]
struct Model {
    // (index, key, value) in insertion order
    v: Vec<(usize, String, u32)>,
}
impl Model {
    fn next(&self) -> usize {
        self.v.last().map(|x| x.0 + 1).unwrap_or(0)
    }
    fn pos(&self, k: &str) -> Option<usize> {
        self.v.iter().position(|x| x.1 == k)
    }
}

fn key(k: u8) -> String {
    ["a", "b", "cc", "d"][k as usize].to_string()
}

type M = IndexedMap<String, u32>;

/// read the whole observable state through every accessor and compare with the model
fn check(m: &mut M, model: &mut Model) -> Result<(), String> {
    macro_rules! req {
        ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
    }
    let n = model.v.len();
    req!(m.len() == n, "len {} expected {}", m.len(), n);
    req!(m.is_empty() == (n == 0), "is_empty");
    let got: Vec<(String, u32)> = m.iter().map(|(_, k, v)| (k.clone(), *v)).collect();
    let exp: Vec<(String, u32)> = model.v.iter().map(|(_, k, v)| (k.clone(), *v)).collect();
    req!(got == exp, "iter {got:?} expected {exp:?}");
    req!(m.iter().len() == n, "iter len");
    let back: Vec<(String, u32)> = m.iter().rev().map(|(_, k, v)| (k.clone(), *v)).collect();
    req!(back == exp.iter().rev().cloned().collect::<Vec<_>>(), "reverse iter {back:?}");
    req!(m.values().copied().collect::<Vec<_>>() == exp.iter().map(|x| x.1).collect::<Vec<_>>(), "values");
    req!(m.keys().cloned().collect::<Vec<_>>() == exp.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "keys");
    let into: Vec<(String, u32)> = (&*m).into_iter().map(|(_, k, v)| (k.clone(), *v)).collect();
    req!(into == exp, "into_iter by reference");
    // insertion indices: take them from the key iterator, they must be unique, ordered and stable
    let mut byk: Vec<(usize, String, u32)> = m.iter_key().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    byk.sort();
    let mut expk: Vec<(usize, String, u32)> = vec![];
    for (i, k, v) in &model.v {
        expk.push((*i, k.clone(), *v));
    }
    req!(byk.len() == n, "iter_key len {}", byk.len());
    let unique: std::collections::BTreeSet<usize> = byk.iter().map(|x| x.0).collect();
    req!(unique.len() == n, "insertion indices not unique: {byk:?}");
    let k2: Vec<(String, u32)> = byk.iter().map(|x| (x.1.clone(), x.2)).collect();
    req!(k2 == exp, "insertion indices do not follow insertion order: {byk:?} expected {exp:?}");
    for (i, (mi, k, _)) in model.v.iter_mut().enumerate() {
        let _ = k;
        if *mi == usize::MAX {
            *mi = byk[i].0; // freshly inserted: learn its index
        } else {
            req!(*mi == byk[i].0, "insertion index of {k} changed from {mi} to {}", byk[i].0);
        }
    }
    let idx: Vec<usize> = m.iter().map(|x| x.0).collect();
    let midx: Vec<usize> = model.v.iter().map(|x| x.0).collect();
    req!(idx == midx, "iter reports indices {idx:?}, insertion indices are {midx:?}");
    let top = midx.last().copied().unwrap_or(0) + 2;
    for i in 0..=top {
        let e = model.v.iter().find(|x| x.0 == i).map(|x| x.2);
        req!(m.get_by_index(i).copied() == e, "get_by_index({i}) = {:?} expected {e:?}", m.get_by_index(i));
        req!(m.get_by_index_mut(i).copied() == e, "get_by_index_mut({i})");
        req!(m.contains_index(i) == e.is_some(), "contains_index({i})");
    }
    for k in 0..4u8 {
        let k = key(k);
        let e = model.pos(&k).map(|p| model.v[p].2);
        req!(m.get_by_key(k.as_str()).copied() == e, "get_by_key({k}) = {:?} expected {e:?}", m.get_by_key(k.as_str()));
        req!(m.get_by_key_mut(k.as_str()).copied() == e, "get_by_key_mut({k})");
        req!(m.contains_key(&k) == e.is_some(), "contains_key({k})");
        match m.entry(k.clone()) {
            Entry::Occupied(o) => req!(Some(*o.get()) == e && o.key() == &k, "entry({k}) occupied"),
            Entry::Vacant(v) => req!(e.is_none() && v.key() == &k, "entry({k}) vacant"),
        }
    }
    let c = m.clone();
    req!(c == *m, "clone differs");
    let owned: Vec<(String, u32)> = c.into_iter().map(|(_, k, v)| (k, v)).collect();
    req!(owned == exp, "into_iter of clone {owned:?}");
    // equality must see keys, values and order
    if n > 0 {
        let mut d = m.clone();
        *d.get_by_key_mut(model.v[0].1.as_str()).unwrap() += 1000;
        req!(d != *m, "maps with different values compare equal");
        let mut d = m.clone();
        d.insert("zz".into(), 1);
        req!(d != *m, "maps with different keys compare equal");
        let build = |rev: bool| {
            let mut d = M::new();
            let mut e = exp.clone();
            if rev {
                e.reverse();
            }
            e.into_iter().for_each(|(k, v)| {
                d.insert(k, v);
            });
            d
        };
        req!(build(false) == build(false), "maps built alike compare unequal");
        req!(n < 2 || build(false) != build(true), "maps with different order compare equal");
    }
    let rv: Vec<u32> = exp.iter().rev().map(|x| x.1).collect();
    req!(m.values().rev().copied().collect::<Vec<_>>() == rv && m.values().len() == n, "values backwards");
    req!(m.values_mut().rev().map(|v| *v).collect::<Vec<_>>() == rv && m.values_mut().len() == n, "values_mut backwards");
    req!(m.values_mut().map(|v| *v).collect::<Vec<_>>() == exp.iter().map(|x| x.1).collect::<Vec<_>>(), "values_mut");
    req!(m.keys().rev().cloned().collect::<Vec<_>>() == exp.iter().rev().map(|x| x.0.clone()).collect::<Vec<_>>() && m.keys().len() == n, "keys backwards");
    let mut km: Vec<(usize, String, u32)> = m.iter_key_mut().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    km.sort();
    req!(km == byk && m.iter_key().len() == n && m.iter_key_mut().len() == n, "iter_key_mut {km:?} expected {byk:?}");
    // both ends of every iterator, in every mixture of directions
    let want: Vec<(usize, String, u32)> = model.v.clone();
    for mix in 0..1u32 << n.min(4) {
        let front = |i: usize| mix >> (i % 4) & 1 == 0;
        let mut e = std::collections::VecDeque::from(want.clone());
        let order: Vec<(usize, String, u32)> = (0..n).map(|i| if front(i) { e.pop_front() } else { e.pop_back() }.unwrap()).collect();
        macro_rules! both {
            ($it:expr, $what:expr, $f:expr) => {{
                let mut it = $it;
                let mut got = vec![];
                for i in 0..n {
                    req!(it.len() == n - i, "{}: {} left, expected {}", $what, it.len(), n - i);
                    match if front(i) { it.next() } else { it.next_back() } {
                        Some(x) => got.push($f(x)),
                        None => return Err(format!("{} ends early", $what)),
                    }
                }
                req!(it.next().is_none() && it.next_back().is_none(), "{} goes on", $what);
                req!(got == order, "{} from both ends ({mix:b}): {got:?}, expected {order:?}", $what);
            }};
        }
        both!(m.iter(), "iter", |(i, k, v): (usize, &String, &u32)| (i, k.clone(), *v));
        both!(m.iter_mut(), "iter_mut", |(i, k, v): (usize, &String, &mut u32)| (i, k.clone(), *v));
        both!(m.clone().into_iter(), "into_iter", |(i, k, v): (usize, String, u32)| (order.iter().find(|x| x.1 == k).map_or(i, |x| x.0), k, v));
    }
    Ok(())
}

fn run(seq: &[Op], ctx: &Ctx) -> Result<(), String> {
    let mut m: M = IndexedMap::new();
    let mut model = Model::default();
    let mut had_removal = false;
    for (i, op) in seq.iter().enumerate() {
        ctx.step(1);
        let e = |s: String| Err(format!("step {i} {op:?}: {s}"));
        match *op {
            Op::Insert(k, v) | Op::EntryOr(k, v) => {
                let ent = matches!(op, Op::EntryOr(..));
                if ent {
                    let r = *m.entry(key(k)).or_insert(v as u32);
                    let ex = model.pos(&key(k)).map(|p| model.v[p].2).unwrap_or(v as u32);
                    if r != ex {
                        return e(format!("or_insert returned {r} expected {ex}"));
                    }
                } else {
                    m.insert(key(k), v as u32);
                }
                match model.pos(&key(k)) {
                    Some(p) => {
                        if !ent {
                            model.v[p].2 = v as u32
                        }
                    }
                    None => {
                        let idx = if had_removal { usize::MAX } else { model.next() };
                        model.v.push((idx, key(k), v as u32))
                    }
                }
            }
            Op::RemoveKey(k) | Op::EntryRemove(k) => {
                let p = model.pos(&key(k));
                let ex = p.map(|p| model.v.remove(p));
                had_removal |= ex.is_some();
                let got = if matches!(op, Op::RemoveKey(_)) {
                    m.remove_by_key(key(k).as_str())
                } else {
                    match m.entry(key(k)) {
                        Entry::Occupied(o) => Some(o.remove_entry()),
                        _ => None,
                    }
                };
                if got != ex {
                    return e(format!("removed {got:?} expected {ex:?}"));
                }
            }
            Op::RemoveIndex(ix) => {
                let p = model.v.iter().position(|x| x.0 == ix);
                let ex = p.map(|p| model.v.remove(p));
                had_removal |= ex.is_some();
                let got = m.remove_by_index(ix);
                if got != ex {
                    return e(format!("removed {got:?} expected {ex:?}"));
                }
            }
            Op::SetByKey(k, v) => {
                if let Some(x) = m.get_by_key_mut(key(k).as_str()) {
                    *x = v as u32;
                }
                if let Some(p) = model.pos(&key(k)) {
                    model.v[p].2 = v as u32;
                }
            }
            Op::SetByIndex(ix, v) => {
                if let Some(x) = m.get_by_index_mut(ix) {
                    *x = v as u32;
                }
                if let Some(p) = model.v.iter().position(|x| x.0 == ix) {
                    model.v[p].2 = v as u32;
                }
            }
            Op::IterMutInc => {
                for (_, _, v) in m.iter_mut() {
                    *v += 1;
                }
                for v in m.values_mut() {
                    *v += 1;
                }
                for (_, _, v) in m.iter_key_mut() {
                    *v += 1;
                }
                for x in &mut model.v {
                    x.2 += 3;
                }
            }
            Op::CloneSwap => {
                let c = m.clone();
                let old = std::mem::replace(&mut m, c);
                // mutating the original must not affect the clone
                let mut old = old;
                old.insert("zz".into(), 9);
                old.remove_by_key("a");
            }
            Op::Collect => {
                let c: M = std::mem::take(&mut m).into_iter().map(|(_, k, v)| (k, v)).collect();
                m = c;
                for (i, x) in model.v.iter_mut().enumerate() {
                    x.0 = i;
                }
                had_removal = false;
            }
        }
        check(&mut m, &mut model).map_err(|s| format!("after step {i} {op:?}: {s}"))?;
    }
    Ok(())
}

pub fn p09(ctx: &Ctx) {
    let mut ops = vec![];
    for k in 0..3u8 {
        ops.push(Op::Insert(k, 10 + k));
        ops.push(Op::RemoveKey(k));
    }
    ops.extend([Op::Insert(0, 77), Op::RemoveIndex(0), Op::RemoveIndex(1), Op::EntryOr(1, 50), Op::EntryRemove(0)]);
    let deep = ops.clone();
    ops.extend([
        Op::RemoveIndex(2),
        Op::EntryOr(3, 60),
        Op::SetByKey(1, 5),
        Op::SetByIndex(1, 6),
        Op::IterMutInc,
        Op::CloneSwap,
        Op::Collect,
    ]);
    let d1 = ctx.pick(5, 6);
    let d2 = ctx.pick(6, 7);
    ctx.bound(format!("all histories of length {d1} over {} map operations and of length {d2} over the {} insert/remove operations, 4 keys, full observable state compared after every step", ops.len(), deep.len()));
    for (ops, d) in [(&ops, d1), (&deep, d2)] {
        let n = ops.len() * ops.len();
        par_for(n, |p| {
            let pre = [ops[p / ops.len()], ops[p % ops.len()]];
            all_seqs(ops.len(), d - 2, |s| {
                let mut seq = pre.to_vec();
                seq.extend(s.iter().map(|i| ops[*i]));
                ctx.state();
                ctx.trace();
                match guard(|| run(&seq, ctx)) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) | Err(m) => {
                        ctx.violation(&format!("imap:{seq:?}"), format!("history={seq:?}\n{m}"))
                    }
                }
                !ctx.stopped()
            });
        });
        ctx.sample(|| format!("{:?}", &ops[..5]));
    }
    ctx.outcome("histories");
}
