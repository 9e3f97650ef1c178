//! P24: copying a bit range changes exactly the addressed bits.
use bitvec::prelude::*;
use mc::core::*;
use unreal_helpers::BitVecExt;

pub fn p24(ctx: &Ctx) {
    let nd = ctx.pick(6usize, 8);
    let ns = ctx.pick(5usize, 7);
    ctx.bound(format!("all destination contents of 0..={nd} bits, all source contents of 0..={ns} bits, every index/count inside the destination, every source offset 0..={}", ns + 2));
    par_for(nd + 1, |dl| {
        for sl in 0..=ns {
            for dv in 0..(1u32 << dl) {
                // all-distinguishing sources: every content
                for sv in 0..(1u32 << sl) {
                    if ctx.stopped() {
                        return;
                    }
                    for index in 0..=dl {
                        for num in 0..=(dl - index) {
                            for off in 0..=(ns + 2) {
                                let mut d: BitVec<u32, Lsb0> = (0..dl).map(|i| dv >> i & 1 == 1).collect();
                                let s: BitVec<u32, Lsb0> = (0..sl).map(|i| sv >> i & 1 == 1).collect();
                                let exp: Vec<bool> = (0..dl)
                                    .map(|i| {
                                        if i >= index && i < index + num {
                                            let k = off + i - index;
                                            k < sl && sv >> k & 1 == 1
                                        } else {
                                            dv >> i & 1 == 1
                                        }
                                    })
                                    .collect();
                                let r = guard(|| d.set_range_from_range(index as i32, num as i32, &s, off as i32));
                                ctx.step(1);
                                let got: Vec<bool> = d.iter().map(|x| *x).collect();
                                if r.is_err() || got != exp || s.len() != sl {
                                    ctx.violation(
                                        &format!("bits:{dl}:{dv}:{sl}:{sv}:{index}:{num}:{off}"),
                                        format!("dst={dv:b}/{dl} src={sv:b}/{sl} index={index} num={num} offset={off}: got {got:?} expected {exp:?} {r:?}"),
                                    );
                                }
                            }
                        }
                    }
                    ctx.state();
                    ctx.trace();
                }
            }
        }
    });
    ctx.sample(|| "dst=0b0101/4 src=0b11/2 index=1 num=3 offset=1".into());
}
