//! C01: chunking invariance.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

/// Final comparison with the analyser that got everything in one call.
fn whole(b: &Buf, ch: u32, rate: u32, mode: u8, e: Entry) -> ebur128::EbuR128 {
    let mut s = new(ch, rate, mode_of(mode)).unwrap();
    s.add(e, b).unwrap();
    s
}

/// All results but the prev_* peaks must agree.
fn agree(a: &ebur128::EbuR128, b: &ebur128::EbuR128, win: &[u32]) -> Res {
    for ((n, x), (_, y)) in results(a, win).into_iter().zip(results(b, win)) {
        if n.starts_with("prev_") {
            continue;
        }
        let ok = match (x, y) {
            (Ok(x), Ok(y)) => {
                if n.starts_with("true_peak") {
                    (x - y).abs() <= 1e-6 * x.abs().max(1.0)
                } else {
                    close(x, y)
                }
            }
            (x, y) => x == y,
        };
        if !ok {
            return Err(format!("cut into calls: {} is {:?}, in one call {:?}", n, x, y));
        }
    }
    Ok(())
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];

    // every composition of a short stream, in lock-step with the model
    for (name, rate, mode, n) in [
        ("compositions-all", 30u32, ALL, if t { 20usize } else { 16 }),
        ("compositions-nohist", 31, NOHIST, if t { 20 } else { 16 }),
        ("compositions-mono-I", 26, I, if t { 20 } else { 16 }),
    ] {
        v.push(space(
            name,
            format!("rate {}, mode {:#x}, all 2^{} compositions of a {}-frame stream into calls, model comparison after every call", rate, mode, n - 1, n),
            move |c| {
                let chn = if mode == I { 1 } else { 2 };
                let stream = grid(3, chn, 0, n, 0.9);
                let mut l = Lock::rust(chn as u32, rate, mode)?.windows(&[400, 100]);
                let mut from = 0;
                for f in 1..=n {
                    if f == n || c.flag() {
                        l.add(c, Entry::F64, &stream.slice(from, f))?;
                        from = f;
                    }
                }
                agree(&l.sut, &whole(&stream, chn as u32, rate, mode, Entry::F64), &[400, 100])
            },
        ));
    }

    // few cuts anywhere in a stream long enough for short-term blocks and ring wrap-around
    v.push(space(
        "cuts-anywhere",
        format!("rates 30/34/80, stream of 4.7 s, all placements of up to {} cuts", if t { 3 } else { 2 }),
        move |c| {
            let rate = c.of(&[30u32, 34, 80]);
            let chn = c.of(&[2usize, 3]);
            if chn == 3 && rate != 30 {
                return Ok(());
            }
            let n = rate as usize * 47 / 10;
            let stream = grid(5, chn, 0, n, 0.8);
            let mut l = Lock::rust(chn as u32, rate, if chn == 3 { ALL } else { NOHIST })?.windows(&[400, 3000]);
            let mut from = 0;
            for _ in 0..if t && rate == 30 { 3 } else { 2 } {
                let k = c.pick(n - from);
                if k > 0 {
                    l.add(c, Entry::F32, &stream.slice(from, from + k))?;
                    from += k;
                }
            }
            l.add(c, Entry::F32, &stream.slice(from, n))?;
            agree(&l.sut, &whole(&stream, chn as u32, rate, l.m.mode, Entry::F32), &[400, 3000])
        },
    ));

    // sequences over a menu of call sizes
    v.push(space(
        "size-menu",
        format!("rate 30, call sizes {{0,1,2,3,5,11,12,13,29,30,31,89,90,91,200}}, all sequences of depth {}", if t { 5 } else { 4 }),
        move |c| {
            const MENU: [usize; 15] = [0, 1, 2, 3, 5, 11, 12, 13, 29, 30, 31, 89, 90, 91, 200];
            let mut l = Lock::rust(2, 30, NOHIST)?.windows(&[400, 3000]);
            let mut from = 0;
            for _ in 0..if t { 5 } else { 4 } {
                let k = c.of(&MENU);
                let b = grid(9, 2, from, k, 0.7);
                from += k;
                l.add(c, Entry::PI16, &b)?;
            }
            if from == 0 {
                return Ok(());
            }
            agree(&l.sut, &whole(&grid(9, 2, 0, from, 0.7), 2, 30, NOHIST, Entry::PI16), &[400, 3000])
        },
    ));

    // constant call sizes, every channel count
    v.push(space(
        "constant-size",
        "rate 30, 1..64 channels, 200 frames in calls of constant size 1..=60 and sizes around the stream length".to_string(),
        move |c| {
            let chn = c.range(1, 64);
            let size = c.pick(64) + 1;
            let size = if size > 60 { 100 + size } else { size };
            if !t && chn > 8 && size % 7 != 1 && size != 12 {
                return Ok(());
            }
            let n = 200;
            let stream = grid(11, chn, 0, n, 0.8);
            let mut l = Lock::rust(chn as u32, 30, ALL)?;
            let mut from = 0;
            while from < n {
                let k = size.min(n - from);
                let b = stream.slice(from, from + k);
                l.sut.add(Entry::I16, &b).map_err(|e| format!("{:?}", e))?;
                l.m.add(&b).unwrap();
                from += k;
            }
            l.after(c)?;
            agree(&l.sut, &whole(&stream, chn as u32, 30, ALL, Entry::I16), &[])
        },
    ));

    // real rates: cuts around every boundary that matters
    v.push(space(
        "real-rates",
        format!(
            "rates 8000..192000, 3.6 s stereo, all pairs of cuts among block boundaries -1/0/+1{}",
            if t { "" } else { " (subset of boundaries)" }
        ),
        move |c| {
            let rate = c.of(if t { &[8000u32, 11025, 22050, 44100, 48000, 96000, 192000][..] } else { &[8000u32, 44100, 48000][..] });
            let s = (rate as usize + 5) / 10;
            let n = 36 * s;
            let mut pts = vec![1];
            for k in if t { &[1usize, 3, 4, 5, 6, 10, 29, 30, 31, 34][..] } else { &[4usize, 5, 30, 31][..] } {
                for d in [-1i64, 0, 1] {
                    pts.push((*k as i64 * s as i64 + d) as usize);
                }
            }
            let stream = grid(13, 2, 0, n, 0.5);
            let i = c.pick(pts.len());
            let j = i + c.pick(pts.len() - i);
            let (a, b) = (pts[i], pts[j]);
            let mut x = new(2, rate, mode_of(NOHIST)).unwrap();
            x.add(Entry::I16, &stream.slice(0, a)).unwrap();
            x.add(Entry::I16, &stream.slice(a, b)).unwrap();
            x.add(Entry::I16, &stream.slice(b, n)).unwrap();
            c.say(|| format!("rate {} cuts {} {} of {}", rate, a, b, n));
            c.checked();
            c.state(mix(rate as u64, (a * 1_000_003 + b) as u64));
            c.outcome(hash_results(&x));
            agree(&x, &whole(&stream, 2, rate, NOHIST, Entry::I16), &[1, 57, 400, 3000])
        },
    ));
    v
}
