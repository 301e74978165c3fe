//! C09: reset.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::{Channel, EbuR128};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add(usize, f64),
    Loud(usize),
    NaN,
    Inf,
    Seed(usize),
    Channel,
    Window(u32),
    History(u32),
    Params(u32, u32),
    Reset,
}

pub fn apply(s: &mut EbuR128, op: Op, salt: u64) -> R {
    let chn = s.channels() as usize;
    match op {
        Op::Add(n, a) => s.add(Entry::F64, &wide(121 + salt, chn, 0, n, a)),
        Op::Loud(n) => s.add(Entry::I16, &grid(131 + salt, chn, 3, n, 1.0)),
        Op::NaN => s.add(Entry::F64, &Buf::F64(chn, vec![f64::NAN; chn * 5])),
        Op::Inf => s.add(Entry::PF32, &Buf::F32(chn, vec![f32::INFINITY; chn * 2])),
        Op::Seed(n) => s.seed(Entry::F32, &grid(141 + salt, chn, 0, n, 0.9)),
        Op::Channel => Sut::set_channel(s, chn as u32 - 1, Channel::Mp060),
        Op::Window(w) => Sut::set_max_window(s, w),
        Op::History(h) => Sut::set_max_history(s, h),
        Op::Params(c, r) => Sut::change_parameters(s, c, r),
        Op::Reset => {
            s.reset();
            Ok(())
        }
    }
}

/// A new analyser with the configuration of `s`.
pub fn fresh_like(s: &EbuR128) -> EbuR128 {
    let mut f = EbuR128::new(s.channels(), s.rate(), s.mode()).unwrap();
    f.set_channel_map(s.channel_map()).unwrap();
    f.set_max_window(s.max_window() as u32).unwrap();
    if s.max_history() <= u32::MAX as usize {
        f.set_max_history(s.max_history() as u32).unwrap();
    }
    f
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let win: &[u32] = &[34, 100, 400, 3000];
    const PRE: [Op; 16] = [
        Op::Add(12, 0.5),
        Op::Add(1, 0.9),
        Op::Add(40, 0.2),
        Op::Add(95, 0.7),
        Op::Loud(7),
        Op::Loud(300),
        Op::NaN,
        Op::Inf,
        Op::Seed(5),
        Op::Seed(40),
        Op::Channel,
        Op::Window(3500),
        Op::History(6000),
        Op::Params(2, 34),
        Op::Params(3, 30),
        Op::Reset,
    ];
    const POST: [Op; 6] = [Op::Add(11, 0.3), Op::Add(1, 0.4), Op::Add(90, 0.2), Op::Loud(130), Op::Seed(3), Op::Window(4000)];
    let (dp, ds) = if t { (4, 3) } else { (3, 3) };
    v.push(space(
        "history-reset-use",
        format!("all histories of {} operations over a menu of 16 (adds, NaN/inf, seeding, reconfiguration, reset) x all continuations of {} over 6, rate 30, histogram and not, twin comparison after every step", dp, ds),
        move |c| {
            let mode = c.of(&[NOHIST, ALL]);
            let chn = c.of(&[2u32, 3]);
            if chn == 3 && mode == ALL && !t {
                return Ok(());
            }
            let mut s = EbuR128::new(chn, 30, mode_of(mode)).unwrap();
            let mut h = mode as u64 * 7 + chn as u64;
            for i in 0..dp {
                let k = c.pick(PRE.len());
                c.say(|| format!("{:?}", PRE[k]));
                apply(&mut s, PRE[k], i as u64).map_err(|e| format!("{:?} failed: {:?}", PRE[k], e))?;
                h = mix(h, k as u64);
                c.state(h);
            }
            let conf = config(&s);
            s.reset();
            if config(&s) != conf {
                return Err(format!("reset changed the configuration from {:?} to {:?}", conf, config(&s)));
            }
            let mut f = fresh_like(&s);
            c.say(|| "reset; twin created".into());
            if c.fresh() {
                c.checked();
                twins(&s, &f, win, "right after reset")?;
            }
            for i in 0..ds {
                let k = c.pick(POST.len());
                c.say(|| format!("{:?}", POST[k]));
                let (a, b) = (apply(&mut s, POST[k], 50 + i), apply(&mut f, POST[k], 50 + i));
                same("operation after reset", a, b)?;
                h = mix(h, 100 + k as u64);
                c.state(h);
                if c.fresh() {
                    c.checked();
                    twins(&s, &f, win, "after reset")?;
                    c.outcome(hash_results(&s));
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "reset-at-every-frame",
        "reset after every number of frames 0..=200 (rate 30), then 1..=100 frames in one or many calls, 4 modes; model comparison".to_string(),
        |c| {
            let n = c.pick(201);
            let mode = c.of(&[NOHIST, ALL, I, LRA]);
            let size = c.of(&[1usize, 7, 100]);
            let mut l = Lock::rust(2, 30, mode)?.windows(&[34, 400]);
            l.add(c, Entry::F64, &wide(151, 2, 0, n, 0.8))?;
            l.reset(c)?;
            let mut from = 0;
            while from < 100 {
                l.add(c, Entry::F64, &wide(153, 2, from, size, 0.5))?;
                from += size;
            }
            Ok(())
        },
    ));
    v.push(space(
        "channel-counts",
        "1..=64 channels x 4x/2x/1x oversampling: loud noise, reset, quiet noise; model comparison".to_string(),
        |c| {
            let chn = c.range(1, 64);
            let rate = c.of(&[30u32, 100_000, 200_000]);
            let mut l = Lock::rust(chn as u32, rate, ALL)?;
            l.add(c, Entry::I16, &grid(155, chn, 0, 31, 1.0))?;
            l.reset(c)?;
            l.add(c, Entry::I16, &grid(157, chn, 0, 4, 0.1))?;
            l.add(c, Entry::I16, &grid(157, chn, 4, 30, 0.1))
        },
    ));
    v.push(space(
        "real-rates",
        "rates 44100/48000: 0.25/0.75/3.3 s, reset, 3.1 s; model comparison".to_string(),
        |c| {
            let rate = c.of(&[44100usize, 48000]);
            let n = c.of(&[rate / 4, rate * 3 / 4, rate * 33 / 10]);
            let mode = c.of(&[NOHIST & !32, ALL & !32]);
            let mut l = Lock::rust(2, rate as u32, mode)?.windows(&[1, 400]);
            l.add(c, Entry::I16, &grid(159, 2, 0, n, 1.0))?;
            l.reset(c)?;
            l.add(c, Entry::I16, &grid(161, 2, 0, rate * 31 / 10, 0.3))
        },
    ));
    v
}
