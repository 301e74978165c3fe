//! C12: several analysers combined.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;

struct Part {
    s: EbuR128,
    m: Model,
}

fn part(mode: u8, blocks: &[f64], stream: u64) -> Part {
    let mut s = new(1, 30, mode_of(mode)).unwrap();
    let mut m = Model::new(1, 30, mode).unwrap();
    m.track_tp = false;
    for (i, a) in blocks.iter().enumerate() {
        let b = wide(221 + stream, 1, i * 12, 12, db(*a));
        s.add(Entry::F64, &b).unwrap();
        m.add(&b).unwrap();
    }
    Part { s, m }
}

/// Compares the combined results of the selected parts with the union of their blocks.
fn combined_ok(c: &mut Ch, parts: &[Part], sel: &[usize]) -> Res {
    let mut q = Quantised { energies: vec![], ambiguous: false };
    let mut r = Quantised { energies: vec![], ambiguous: false };
    for &i in sel {
        let (a, b) = (parts[i].m.gating_blocks(), parts[i].m.range_blocks());
        q.energies.extend(a.energies);
        q.ambiguous |= a.ambiguous;
        r.energies.extend(b.energies);
        r.ambiguous |= b.ambiguous;
    }
    let has = |m: u8| sel.iter().all(|&i| parts[i].m.has(m));
    let mixed = sel.iter().any(|&i| parts[i].m.has(HIST)) && sel.iter().any(|&i| !parts[i].m.has(HIST));
    let before: Vec<u64> = sel.iter().map(|&i| hash_results(&parts[i].s)).collect();
    let g = EbuR128::loudness_global_multiple(sel.iter().map(|&i| &parts[i].s)).map_err(conv);
    let l = EbuR128::loudness_range_multiple(sel.iter().map(|&i| &parts[i].s)).map_err(conv);
    let after: Vec<u64> = sel.iter().map(|&i| hash_results(&parts[i].s)).collect();
    if before != after {
        return Err("combining changed an analyser".into());
    }
    c.checked();
    let inval = Result::Err(crate::sut::Err::InvalidMode);
    let want_g = if has(I) { Ok(integrated_of(&q).0) } else { inval };
    let want_l = if !has(LRA) || mixed {
        Result::Err(crate::sut::Err::InvalidMode)
    } else if r.ambiguous {
        Ok(Exp::Any)
    } else {
        Ok(range(&r.energies))
    };
    c.outcome(match g {
        Ok(v) => (v * 1e6) as i64 as u64,
        _ => 1,
    });
    for (n, got, want) in [("loudness_global_multiple", g, want_g), ("loudness_range_multiple", l, want_l)] {
        match (got, want) {
            (Ok(v), Ok(e)) => {
                if e == Exp::Any {
                    c.ambiguous();
                }
                if !e.admits(v) {
                    return Err(format!("{} of {:?} = {:?}, expected {:?}", n, sel, v, e));
                }
            }
            (Result::Err(a), Result::Err(b)) if a == b => {}
            (a, b) => return Err(format!("{} of {:?} = {:?}, expected {:?}", n, sel, a, b)),
        }
    }
    Ok(())
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    // level combinations: gating must be done on the union
    v.push(space(
        "levels",
        format!("3 analysers, each with all sequences of {} blocks over 4 levels (plus none), histogram and not, all 6 orders", if t { 3 } else { 2 }),
        move |c| {
            let mode = c.of(&[I | LRA, I | LRA | HIST]);
            let mut parts = vec![];
            let mut h = mode as u64;
            for p in 0..3 {
                let mut b = vec![];
                for _ in 0..if t { 3 } else { 2 } {
                    match c.pick(5) {
                        0 => {}
                        k => b.push([-14.0, -31.0, -52.0, -85.0][k - 1]),
                    }
                }
                h = mix(h, b.iter().fold(b.len() as u64, |a, x| mix(a, (x * -8.0) as u64)));
                parts.push(part(mode, &b, p));
            }
            c.state(h);
            for sel in [[0usize, 1, 2], [2, 1, 0], [1, 0, 2], [2, 0, 1], [0, 2, 1], [1, 2, 0]] {
                combined_ok(c, &parts, &sel)?;
            }
            Ok(())
        },
    ));
    // range over unions
    v.push(space(
        "range-levels",
        format!("2 analysers with up to {} s over 4 levels each, every combination; histogram and not", if t { 6 } else { 5 }),
        move |c| {
            let mode = c.of(&[I | LRA, I | LRA | HIST]);
            let mut parts = vec![];
            let mut h = 0;
            for p in 0..2 {
                let n = if p == 0 { c.of(&[5usize, 3, 2]) } else { if t { 6 } else { 5 } };
                let mut s = new(1, 30, mode_of(mode)).unwrap();
                let mut m = Model::new(1, 30, mode).unwrap();
                for i in 0..n {
                    let a = if i < 2 { -20.0 } else { c.of(&[-14.0, -30.0, -44.0, -60.0]) };
                    let b = wide(231 + p as u64, 1, i * 30, 30, db(a));
                    s.add(Entry::F64, &b).unwrap();
                    m.add(&b).unwrap();
                }
                h = mix(h, m.hash);
                parts.push(Part { s, m });
            }
            c.state(h);
            combined_ok(c, &parts, &[0, 1])?;
            combined_ok(c, &parts, &[1, 0])?;
            combined_ok(c, &parts, &[1])?;
            combined_ok(c, &parts, &[0, 1, 0])
        },
    ));
    // orders and repetitions
    let len = if t { 6 } else { 5 };
    v.push(space(
        "selections",
        format!("all sequences of up to {} out of 4 analysers (with repetition; one of them with few, one with no blocks), without, with and with mixed histograms", len),
        move |c| {
            let kind = c.pick(3);
            let n = c.range(0, len);
            let sel: Vec<usize> = (0..n).map(|_| c.pick(4)).collect();
            c.state(sel.iter().fold(mix(kind as u64, n as u64), |h, &x| mix(h, x as u64)));
            let parts: Vec<Part> = (0..4usize)
                .map(|i| {
                    let hist = kind == 1 || kind == 2 && i % 2 == 0;
                    let base = [-14.0, -22.0, -29.0, -90.0][i];
                    let n = [11, 17, 9, 4][i];
                    let b: Vec<f64> = (0..n).map(|j| base - 1.7 * ((j * 5) % 7) as f64).collect();
                    part(I | LRA | if hist { HIST } else { 0 }, &b, i as u64)
                })
                .collect();
            combined_ok(c, &parts, &sel)
        },
    ));
    // number of instances
    v.push(space(
        "instance-counts",
        "0..=70 analysers with different blocks, in order / reversed / rotated / repeated; histogram, plain and alternating".to_string(),
        |c| {
            let n = c.pick(71);
            let kind = c.pick(3);
            let rot = c.of(&[0usize, 1, 17]);
            let mut parts = vec![];
            for i in 0..n {
                let mode = match kind {
                    0 => I | LRA,
                    1 => I | LRA | HIST,
                    _ => I | LRA | if i % 2 == 0 { HIST } else { 0 },
                };
                let k = i % 4;
                let b: Vec<f64> = (0..8 + k).map(|j| -10.0 - 2.7 * ((i * 5 + j * 3) % 17) as f64).collect();
                parts.push(part(mode, &b, i as u64 % 7));
            }
            c.state(mix(n as u64, kind as u64));
            let sel: Vec<usize> = (0..n).map(|i| (i + rot) % n).collect();
            combined_ok(c, &parts, &sel)?;
            let rev: Vec<usize> = sel.iter().rev().copied().collect();
            combined_ok(c, &parts, &rev)?;
            let dup: Vec<usize> = sel.iter().flat_map(|&i| [i, i]).take(40).collect();
            combined_ok(c, &parts, &dup)?;
            let one: Vec<usize> = sel.iter().chain(sel.last()).chain(sel.last()).chain(sel.first()).copied().collect();
            combined_ok(c, &parts, &one)
        },
    ));
    // modes
    v.push(space(
        "modes",
        "all pairs and triples of the 8 mode subsets relevant here (with/without I, LRA, histogram), position of the misfit".to_string(),
        |c| {
            const MODES: [u8; 8] = [I | LRA, I, LRA, M, I | LRA | HIST, I | HIST, LRA | HIST, M | HIST];
            let n = c.range(1, 3);
            let parts: Vec<Part> = (0..n)
                .map(|i| part(c.of(&MODES), &[-20.0, -23.0, -20.0, -31.0, -20.0, -20.0, -18.0, -20.0, -20.0, -20.0], i as u64))
                .collect();
            c.state(parts.iter().fold(0, |h, p| mix(h, p.m.mode as u64)));
            let sel: Vec<usize> = (0..n).collect();
            combined_ok(c, &parts, &sel)
        },
    ));
    // misfit among many
    v.push(space(
        "misfit-position",
        "40 analysers, one without mode I / LRA / of the other history kind at every position".to_string(),
        |c| {
            let k = c.pick(40);
            let odd = c.of(&[M, I, LRA, I | LRA | HIST]);
            let parts: Vec<Part> = (0..40).map(|i| part(if i == k { odd } else { I | LRA }, &[-20.0, -25.0], 1)).collect();
            c.state(mix(k as u64, odd as u64));
            let sel: Vec<usize> = (0..40).collect();
            combined_ok(c, &parts, &sel)
        },
    ));
    // different rates and channel counts, limited histories
    v.push(space(
        "heterogeneous",
        "all ordered triples over 7 differently configured analysers (rate, channels, bounded history, after reset, empty)".to_string(),
        |c| {
            let mk = |k: usize| -> Part {
                let (ch, rate) = [(1usize, 30u32), (2, 34), (5, 80), (1, 30), (2, 30), (1, 48000), (3, 30)][k];
                let mut s = new(ch as u32, rate, mode_of(I | LRA)).unwrap();
                let mut m = Model::new(ch as u32, rate, I | LRA).unwrap();
                if k == 3 {
                    Sut::set_max_history(&mut s, 4000).unwrap();
                    m.set_max_history(4000).unwrap();
                }
                if k != 6 {
                    for i in 0..5usize {
                        let n = rate as usize;
                        let b = wide(241 + k as u64, ch, i * n, n, db(-12.0 - 3.0 * ((i * 3 + k) % 5) as f64));
                        s.add(Entry::F64, &b).unwrap();
                        m.add(&b).unwrap();
                    }
                }
                if k == 4 {
                    s.reset();
                    m.reset();
                }
                Part { s, m }
            };
            let parts = vec![mk(c.pick(7)), mk(c.pick(7)), mk(c.pick(7))];
            c.state(parts.iter().fold(0, |h, p| mix(h, p.m.hash)));
            combined_ok(c, &parts, &[0, 1, 2])
        },
    ));
    v
}
