//! P10: name tables and names for every history of additions, lookups, edits and deep copies.
use mc::core::*;
use unreal_asset_base::containers::{NameMap, SharedResource};
use unreal_asset_base::types::fname::{EMappedNameType, FName};

const NAMES: [&str; 4] = ["None", "a", "A", "é"];

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize),
    AddDup(usize),
    AddFName(usize, i32),
    Edit(i32, usize),
    CloneSwap,
    CloneMutate,
    FromBatch,
}

struct Live {
    f: FName,
    index: i32,
    number: i32,
}

fn check(m: &SharedResource<NameMap>, list: &[String], live: &[Live]) -> Result<(), String> {
    macro_rules! req { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } }; }
    {
        let r = m.get_ref();
        req!(r.get_name_map_index_list() == list, "names {:?} expected {list:?}", r.get_name_map_index_list());
        req!(r.is_empty() == list.is_empty(), "is_empty");
        for (i, n) in list.iter().enumerate() {
            req!(r.get_name_reference(i as i32) == n, "name {i}");
            req!(&r.get_owned_name(i as i32) == n, "owned name {i}");
        }
        for bad in [-1, i32::MIN, list.len() as i32, i32::MAX] {
            let s = r.get_owned_name(bad);
            req!(s.starts_with("error"), "out of range index {bad} gave {s:?}");
        }
        for n in NAMES.iter().chain(["zz", ""].iter()) {
            let got = r.search_name_reference(n);
            match got {
                Some(i) => req!(list.get(i as usize).map(|x| x.as_str()) == Some(*n), "search({n}) = {i}, table {list:?}"),
                None => req!(!list.iter().any(|x| x == n), "search({n}) found nothing, table {list:?}"),
            }
        }
    }
    for l in live {
        let exp = &list[l.index as usize];
        req!(&l.f.get_owned_content() == exp, "name content {:?} expected {exp:?}", l.f.get_owned_content());
        req!(l.f.get_number() == l.number, "number");
        req!(l.f == exp.as_str(), "== str");
        req!(!(l.f == "zz"), "== other str");
        req!(l.f.ends_with(&exp[exp.len()..]) && !l.f.ends_with("zz"), "ends_with");
        if let FName::Backed { index, ty, .. } = &l.f {
            req!(*index == l.index && *ty == EMappedNameType::Package, "backed fields");
        } else {
            req!(false, "name from a table is not backed");
        }
        for k in live {
            req!((l.f == k.f) == (l.index == k.index && l.number == k.number), "equality of {:?} {:?}", l.f, k.f);
            req!(l.f.eq_content(&k.f) == (list[l.index as usize] == list[k.index as usize]), "eq_content");
            if l.f == k.f {
                use std::hash::{Hash, Hasher};
                let h = |f: &FName| {
                    let mut s = std::collections::hash_map::DefaultHasher::new();
                    f.hash(&mut s);
                    s.finish()
                };
                req!(h(&l.f) == h(&k.f), "equal names hash differently");
            }
        }
    }
    Ok(())
}

fn run(seq: &[Op], ctx: &Ctx) -> Result<(), String> {
    let mut m = NameMap::new();
    let mut list: Vec<String> = vec![];
    let mut live: Vec<Live> = vec![];
    // tables left behind by a deep copy, with the content they must keep
    let mut old: Vec<(SharedResource<NameMap>, Vec<String>, Vec<Live>)> = vec![];
    for (i, op) in seq.iter().enumerate() {
        ctx.step(1);
        match *op {
            Op::Add(n) => {
                let r = m.get_mut().add_name_reference(NAMES[n].to_string(), false);
                if !list.iter().any(|x| x == NAMES[n]) {
                    list.push(NAMES[n].to_string());
                }
                if list.get(r as usize).map(|x| x.as_str()) != Some(NAMES[n]) {
                    return Err(format!("step {i} {op:?} returned {r}, table {list:?}"));
                }
            }
            Op::AddDup(n) => {
                let r = m.get_mut().add_name_reference(NAMES[n].to_string(), true);
                list.push(NAMES[n].to_string());
                if r as usize != list.len() - 1 {
                    return Err(format!("step {i} {op:?} returned {r}"));
                }
            }
            Op::AddFName(n, number) => {
                let f = if number == 0 { m.get_mut().add_fname(NAMES[n]) } else { m.get_mut().add_fname_with_number(NAMES[n], number) };
                if !list.iter().any(|x| x == NAMES[n]) {
                    list.push(NAMES[n].to_string());
                }
                if let FName::Backed { index, .. } = &f {
                    let index = *index;
                    if list.get(index as usize).map(|x| x.as_str()) != Some(NAMES[n]) {
                        return Err(format!("step {i} {op:?} made index {index}, table {list:?}"));
                    }
                    live.push(Live { f, index, number });
                }
            }
            Op::Edit(ix, n) => {
                if (ix as usize) < list.len() {
                    *m.get_mut().get_name_reference_mut(ix) = NAMES[n].to_string();
                    list[ix as usize] = NAMES[n].to_string();
                }
            }
            Op::CloneSwap => {
                let c = m.clone_resource();
                old.push((std::mem::replace(&mut m, c), list.clone(), std::mem::take(&mut live)));
            }
            Op::CloneMutate => {
                let mut c = m.clone_resource();
                c.get_mut().add_name_reference("zz".into(), true);
                *c.get_mut().get_name_reference_mut(0) = "zz".into();
                let f = c.get_mut().add_fname("yy");
                if f.get_owned_content() != "yy" {
                    return Err(format!("step {i}: a name added to a copy reads {:?}", f.get_owned_content()));
                }
            }
            Op::FromBatch => {
                // a table rebuilt from its own name list keeps the first occurrence of every name
                m = NameMap::from_name_batch(&list);
                let mut l2: Vec<String> = vec![];
                for n in &list {
                    if !l2.contains(n) {
                        l2.push(n.clone());
                    }
                }
                list = l2;
                live.clear();
            }
        }
        check(&m, &list, &live).map_err(|e| format!("after step {i} {op:?}: {e}"))?;
        for (om, ol, olive) in &old {
            check(om, ol, olive).map_err(|e| format!("after step {i} {op:?}: copied-from table changed: {e}"))?;
        }
    }
    Ok(())
}

pub fn p10(ctx: &Ctx) {
    let ops = vec![
        Op::Add(0),
        Op::Add(1),
        Op::Add(2),
        Op::AddDup(1),
        Op::AddDup(3),
        Op::AddFName(1, 0),
        Op::AddFName(1, 5),
        Op::AddFName(3, -1),
        Op::Edit(0, 1),
        Op::Edit(0, 2),
        Op::Edit(1, 3),
        Op::CloneSwap,
        Op::CloneMutate,
        Op::FromBatch,
    ];
    let d = ctx.pick(5, 6);
    ctx.bound(format!("all histories of length {d} over {} name-table operations (4 names incl. case variants and non-ASCII), full observable state of the table, of every name handed out and of every table left behind by a deep copy compared after each step", ops.len()));
    ctx.assume("no collision of the 64-bit lookup hash between distinct names");
    par_for(ops.len() * ops.len(), |p| {
        let pre = [ops[p / ops.len()], ops[p % ops.len()]];
        all_seqs(ops.len(), d - 2, |s| {
            let mut seq = pre.to_vec();
            seq.extend(s.iter().map(|i| ops[*i]));
            ctx.state();
            ctx.trace();
            match guard(|| run(&seq, ctx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => ctx.violation(&format!("names:{seq:?}"), format!("history={seq:?}\n{m}")),
            }
            !ctx.stopped()
        });
        ctx.sample(|| format!("{pre:?} ..."));
    });
    // dummy names
    let mut dn = vec![];
    for v in ["", "a", "A"] {
        for n in [0, 1, -1] {
            dn.push((v, n, FName::new_dummy(v.into(), n)));
        }
    }
    for (v, n, f) in &dn {
        for (w, k, g) in &dn {
            ctx.state();
            if (f == g) != (v == w && n == k) || f.eq_content(g) != (v == w) {
                ctx.violation(&format!("dummy:{v}:{n}:{w}:{k}"), format!("{f:?} vs {g:?}"));
            }
        }
    }
}
