//! One module per property: its closed systems ("spaces") and oracles.
use crate::explore::{space, Space};
use crate::lock::Lock;
use crate::signal::{grid, wide};
use crate::sut::{Buf, Entry};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c25;
pub mod c26;

pub fn ids() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C25", "C26"]
}

pub fn spaces(id: &str, tier: &str) -> Vec<Space> {
    let t = tier == "thorough";
    match id {
        "C01" => c01::spaces(t),
        "C02" => c02::spaces(t),
        "C03" => c03::spaces(t),
        "C04" => c04::spaces(t),
        "C05" => c05::spaces(t),
        "C06" => c06::spaces(t),
        "C07" => c07::spaces(t),
        "C08" => c08::spaces(t),
        "C09" => c09::spaces(t),
        "C10" => c10::spaces(t),
        "C11" => c11::spaces(t),
        "C12" => c12::spaces(t),
        "C13" => c13::spaces(t),
        "C14" => c14::spaces(t),
        "C15" => c15::spaces(t),
        "C16" => c16::spaces(t),
        "C17" => c17::spaces(t),
        "C18" => c18::spaces(t),
        "C19" => c19::spaces(t),
        "C20" => c20::spaces(t),
        "C21" => c21::spaces(t),
        "C22" => c22::spaces(t),
        "C25" => c25::spaces(t),
        "C26" => c26::spaces(t),
        _ => panic!("unknown property {}", id),
    }
}

/// The property in the middle of everything else: all sequences of calls over an alphabet that touches
/// every part of the analyser, with the results in `focus` compared after each call.
pub fn in_context(depth: usize, focus: u32, modes: &'static [u8]) -> Space {
    space(
        "in-context",
        format!("all sequences of {} calls over 11 (adding 7/50/130 frames, seeding, reset, new rate, new channel count, new maximum window, new maximum history, new channel type, channel made Unused), {} mode(s), 2 or 1 channels (2 also 42 dB louder or quieter), rate 30: comparison after every call", depth, modes.len()),
        move |c| {
            let mode = c.of(modes);
            let ch0 = c.of(&[2usize, 1]);
            let gain = if ch0 == 2 { c.of(&[1.0, 128.0, 1.0 / 128.0]) } else { 1.0 };
            let mut l = Lock::rust(ch0 as u32, 30, mode)?.windows(&[34, 100, 1000, 3000, 6100]).what(focus);
            for i in 0..depth {
                let st = 901 + i as u64;
                let chn = l.m.channels;
                let a = [0.5, 0.05, 0.9, 0.2, 0.6, 0.3, 0.7][i];
                match c.pick(11) {
                    0 => l.add(c, Entry::F64, &wide(st, chn, 0, 7, a * gain))?,
                    1 if gain != 1.0 => l.add(c, Entry::PF32, &scaled(&grid(st, chn, 0, 50, a), gain))?,
                    1 => l.add(c, Entry::PI16, &grid(st, chn, 0, 50, a))?,
                    2 => l.add(c, Entry::F32, &scaled(&grid(st, chn, 0, 130, a), gain))?,
                    3 => l.seed(c, Entry::PF64, &wide(st, chn, 0, 20, a * gain))?,
                    4 => l.reset(c)?,
                    5 => {
                        let r = if l.m.rate == 30 { 80 } else { 30 };
                        l.change_parameters(c, chn as u32, r)?
                    }
                    6 => {
                        let r = l.m.rate;
                        l.change_parameters(c, if chn == ch0 { 3 } else { ch0 as u32 }, r)?
                    }
                    7 => {
                        let w = if l.m.window > 6000 { 3000 } else { 6100 };
                        l.set_max_window(c, w)?
                    }
                    8 => {
                        let h = if l.m.history > 10_000 { 3000 } else { 60_000 };
                        l.set_max_history(c, h)?
                    }
                    9 => l.set_channel(c, 0, if l.m.map[0] == ebur128::Channel::Unused {
                        // (what a channel that is taken into use again has in the buffer is not specified)
                        ebur128::Channel::Unused
                    } else if chn == 1 { ebur128::Channel::DualMono } else { ebur128::Channel::Mp060 })?,
                    _ => l.set_channel(c, chn as u32 - 1, ebur128::Channel::Unused)?,
                }
            }
            Ok(())
        },
    )
}

/// Exactly `gain` (a power of two) times as loud.
fn scaled(b: &Buf, gain: f64) -> Buf {
    Buf::F32(b.channels(), (0..b.len()).map(|i| (b.at(i) * gain) as f32).collect())
}

pub fn level(_id: &str) -> &'static str {
    "model_checking"
}

pub fn assumptions(_id: &str) -> Vec<String> {
    vec![
        "x86-64 with SSE2 (the flush-to-zero variant of the filter)".into(),
        "sample values outside the enumerated alphabets and depths beyond the stated bounds are not covered".into(),
    ]
}

/// Extra lines for stdout and the evidence (known findings).
pub fn notes(id: &str) -> Vec<String> {
    crate::known::findings(id).into_iter().map(|f| format!("KNOWN-FINDING: property={} {}", id, f)).collect()
}

/// Development helpers.
pub fn aux(args: &[String]) -> i32 {
    if args.first().map(|s| s.as_str()) == Some("unstable-rates") {
        c20::list_unstable();
        return 0;
    }
    if args.first().map(|s| s.as_str()) == Some("step-counts") {
        c21::step_counts();
        return 0;
    }
    2
}
