//! C11: bounded history.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

const FOCUS: u32 = W_CONF | W_GLOB | W_LRA;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let depth = if t { 7 } else { 6 };
    v.push(space(
        "operation-sequences",
        format!("all sequences of {} operations: adds of {{0.1, 0.5, 2 s}} at 2 levels and limits {{0,400,500,1000,3000,6000,u32::MAX}}; mode I and LRA+I; comparison after every step", depth),
        move |c| {
            let mode = c.of(&[I, I | LRA]);
            let mut l = Lock::rust(1, 30, mode)?.what(FOCUS);
            let mut from = 0;
            for _ in 0..depth {
                let k = c.pick(12);
                if k < 6 {
                    let n = [3usize, 15, 60][k % 3];
                    let a = [0.5, 0.08][k / 3];
                    l.add(c, Entry::F64, &wide(201, 1, from, n, a))?;
                    from += n;
                } else {
                    l.set_max_history(c, [0u32, 500, 1000, 3000, 6000, u32::MAX][k - 6])?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "limit-sweep",
        format!("every limit 0..={} ms step 50 set before / after / in the middle of 60 s of rising or varying level; comparison after every 0.1 s", if t { 20000 } else { 8000 }),
        move |c| {
            let h = c.pick(if t { 401 } else { 161 }) as u32 * 50;
            let when = c.of(&[0usize, 100, 300, 599]);
            let rising = c.flag();
            let mode = c.of(&[I, I | LRA]);
            let mut l = Lock::rust(1, 30, mode)?.what(FOCUS);
            for i in 0..600 {
                if i == when {
                    l.set_max_history(c, h)?;
                }
                let lv = if rising { -40.0 + 0.05 * i as f64 } else { -25.0 + 12.0 * noise(203, 0, i / 4) };
                l.add(c, Entry::F64, &wide(205, 1, i * 3, 3, db(lv)))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "shrink-grow",
        "all triples of limits over {400,700,1500,3000,5900,6000,9000,60000}: set one, 12 s, set second, 7 s, set third, 12 s".to_string(),
        |c| {
            const L: [u32; 8] = [60000, 400, 700, 1500, 3000, 5900, 6000, 9000];
            let (a, b, d) = (c.of(&L), c.of(&L), c.of(&L));
            let mode = c.of(&[I | LRA, I]);
            let mut l = Lock::rust(1, 30, mode)?.what(FOCUS);
            let mut i = 0;
            for (h, n) in [(a, 12), (b, 7), (d, 12)] {
                l.set_max_history(c, h)?;
                for _ in 0..n {
                    l.add(c, Entry::F64, &wide(207, 1, i * 30, 30, db(-20.0 + 10.0 * noise(209, 0, i))))?;
                    i += 1;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "silence-does-not-count",
        "limits {400,1000,2000}: patterns of loud and below-gate hops, all sequences of 10 hops over {loud, quiet, silent}".to_string(),
        |c| {
            let h = c.of(&[400u32, 1000, 2000]);
            let mut l = Lock::rust(1, 30, I)?.what(FOCUS);
            l.set_max_history(c, h)?;
            for i in 0..10 {
                let a = c.of(&[db(-20.0), db(-28.0), db(-110.0)]);
                l.add(c, Entry::F64, &wide(211, 1, i * 12, 12, a))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "large-limits",
        format!("limits around the preallocation size (499900..500200 ms) and above, {} blocks, shrunk afterwards", if t { 12000 } else { 6000 }),
        move |c| {
            let h = c.of(&[499_900u32, 500_000, 500_100, 500_200, 600_000, 1_000_000, u32::MAX]);
            let late = c.flag();
            let then = c.of(&[3_000u32, 499_999, 400_000]);
            let n = if t { 12000 } else { 6000 };
            let mut l = Lock::rust(1, 30, I)?.what(FOCUS);
            if !late {
                l.set_max_history(c, h)?;
            }
            for i in 0..n / 100 {
                let b = wide(213, 1, i * 300, 300, db(-30.0 + 10.0 * noise(215, 0, i)));
                l.sut.add(Entry::F64, &b).unwrap();
                l.m.add(&b).unwrap();
                if i % 10 == 9 {
                    l.after(c)?;
                }
            }
            if late {
                l.set_max_history(c, h)?;
            }
            l.set_max_history(c, then)?;
            l.add(c, Entry::F64, &wide(213, 1, n * 3, 90, db(-30.0)))
        },
    ));
    v.push(space(
        "histogram-unaffected",
        "histogram mode: limits have no effect on the results (model without limit), 8 s".to_string(),
        |c| {
            let h = c.of(&[0u32, 400, 3000, 6000, 100_000]);
            let mut l = Lock::rust(1, 30, I | LRA | HIST)?.what(FOCUS);
            for i in 0..8 {
                if i == 3 {
                    l.set_max_history(c, h)?;
                }
                l.add(c, Entry::F64, &wide(217, 1, i * 30, 30, db(-20.0 - 3.0 * (i % 4) as f64)))?;
            }
            Ok(())
        },
    ));
    v
}
