# bug(id, property, [(file, old, new)], needs, what it breaks, demo)
EB = 'src/ebur128.rs'; FI = 'src/filter.rs'; HI = 'src/history.rs'; UT = 'src/utils.rs'; TP = 'src/true_peak.rs'; IN = 'src/interp.rs'; CA = 'src/capi.rs'

bug('c07-empty-call-clears-prev-peaks', 'C07', [
 (EB, '''        if src.frames() == 0 {
            return Ok(());
        }

        if self.channels == 0 {
            return Err(Error::NoMem);
        }

        if src.channels() != self.channels as usize {
            return Err(Error::NoMem);
        }

        self.filter.reset_peaks();

        while''', '''        if self.channels == 0 {
            return Err(Error::NoMem);
        }

        if src.channels() != self.channels as usize {
            return Err(Error::NoMem);
        }

        self.filter.reset_peaks();

        if src.frames() == 0 {
            return Ok(());
        }

        while''')],
 'an empty add_frames call between a non-empty one and prev_sample_peak/prev_true_peak',
 'an empty call clears the peaks of the last non-empty call',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 48000, Mode::all()).unwrap();
     e.add_frames_f64(&noise(1, 1000)).unwrap();
     let p = e.prev_sample_peak(0).unwrap();
     assert!(p > 0.5);
     e.add_frames_f64(&[]).unwrap();
     near("prev sample peak after an empty call", e.prev_sample_peak(0).unwrap(), p, 0.0);
 }
 ''')

bug('c01-lra-counter-needs-i', 'C14', [
 (EB, '''                self.audio_data_index += num_frames;
                if self.mode.contains(Mode::LRA) {''', '''                self.audio_data_index += num_frames;
                if self.mode.contains(Mode::LRA | Mode::I) {''')],
 'mode LRA without I, and calls that end within a 100 ms block',
 'without mode I the short-term counter misses partial blocks, so the 3 s blocks are lost or shifted: a mode changes another mode\'s result',
 '''
 fn main() {
     let x: Vec<f64> = (0..20).flat_map(|k| scaled(k, 8000, 0.9 / (1 + k % 5) as f64)).collect();
     let run = |m: Mode| {
         let mut e = EbuR128::new(1, 8000, m).unwrap();
         for c in x.chunks(1234) {
             e.add_frames_f64(c).unwrap();
         }
         e.loudness_range().unwrap()
     };
     near("range without and with mode I", run(Mode::LRA), run(Mode::LRA | Mode::I), 1e-9);
 }
 ''')

bug('c08-planar-generic-start', 'C02', [
 (UT, '''        for v in &self.data[channel][self.start..self.end] {
            func(v)
        }
    }

    #[inline]
    fn foreach_sample_zipped<U>(
        &self,
        channel: usize,
        iter: impl Iterator<Item = U>,
        mut func: impl FnMut(&'a S, U),
    ) {
        assert!(channel < self.data.len());

        for (v, u) in Iterator::zip(self.data[channel][self.start..self.end]''', '''        for v in &self.data[channel][..self.end] {
            func(v)
        }
    }

    #[inline]
    fn foreach_sample_zipped<U>(
        &self,
        channel: usize,
        iter: impl Iterator<Item = U>,
        mut func: impl FnMut(&'a S, U),
    ) {
        assert!(channel < self.data.len());

        for (v, u) in Iterator::zip(self.data[channel][self.start..self.end]''')],
 'planar input, a channel count without a specialised interpolator (3, 5, 7, ...) and a call that spans a block boundary',
 'planar audio is fed into the interpolator again from the start of the call after every block, so the true peak differs from the interleaved one',
 '''
 fn main() {
     // Quiet start, loud end: joining them creates an overshoot that the audio does not have.
     let n = 40000;
     let x: Vec<f64> = (0..n).map(|i| (i as f64 * 0.01).sin() * if i < 4800 * 4 + 3 { 1.0 } else { 0.0 } ).collect();
     let mut x = x;
     for (i, v) in x.iter_mut().enumerate() {
         // first samples alternate in sign with the ones right before the block boundary
         if i < 6 { *v = if i % 2 == 0 { 0.9 } else { 0.9 } * -1.0; }
         if i >= 4800 * 4 - 6 && i < 4800 * 4 { *v = 0.9; }
     }
     let mut inter = Vec::new();
     for v in &x { inter.extend_from_slice(&[*v, *v, *v]); }
     let mut a = EbuR128::new(3, 48000, Mode::all()).unwrap();
     a.add_frames_f64(&inter).unwrap();
     let mut b = EbuR128::new(3, 48000, Mode::all()).unwrap();
     b.add_frames_planar_f64(&[&x, &x, &x]).unwrap();
     for c in 0..3 {
         near("true peak", b.true_peak(c).unwrap(), a.true_peak(c).unwrap(), 1e-6);
     }
     // and with noise
     for s in 0..40 {
         let x = scaled(s, 30000, 0.8);
         let mut inter = Vec::new();
         for v in &x { inter.extend_from_slice(&[*v, *v, *v]); }
         let mut a = EbuR128::new(3, 48000, Mode::all()).unwrap();
         a.seed_frames_f64(&inter[..300]).unwrap();
         let mut b = EbuR128::new(3, 48000, Mode::all()).unwrap();
         b.seed_frames_planar_f64(&[&x[..100], &x[..100], &x[..100]]).unwrap();
         a.add_frames_f64(&inter[..3 * 24000]).unwrap();
         a.add_frames_f64(&inter[3 * 24000..3 * 24001]).unwrap();
         b.add_frames_planar_f64(&[&x[..24000], &x[..24000], &x[..24000]]).unwrap();
         b.add_frames_planar_f64(&[&x[24000..24001], &x[24000..24001], &x[24000..24001]]).unwrap();
         near("prev true peak", b.prev_true_peak(0).unwrap(), a.prev_true_peak(0).unwrap(), 1e-6);
         near("true peak", b.true_peak(0).unwrap(), a.true_peak(0).unwrap(), 1e-6);
     }
 }
 ''')

bug('c11-history-never-raised', 'C11', [
 (EB, '        if self.history == history as usize {', '        if self.history <= history as usize {')],
 'set_max_history with a larger value after a smaller one',
 'raising the history limit is silently ignored',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 8000, Mode::I).unwrap();
     e.set_max_history(1000).unwrap();
     e.add_frames_f64(&scaled(1, 8000, 0.5)).unwrap();
     e.set_max_history(100_000).unwrap();
     assert_eq!(e.max_history(), 100_000);
     e.add_frames_f64(&scaled(2, 80000, 0.5)).unwrap();
     assert!(e.gating_block_count_and_energy().unwrap().0 > 50);
 }
 ''')

bug('c10-window-keeps-shortterm-counter', 'C10', [
 (EB, '''        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;
''', '''        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
''')],
 'mode LRA, set_max_window in the middle of a stream',
 'the 3 s blocks after the change contain silence that never was, or never come',
 '''
 fn main() {
     let x = scaled(1, 80000, 0.3);
     let mut a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     a.add_frames_f64(&x[..8000 * 5 / 2]).unwrap();
     a.set_max_window(5000).unwrap();
     a.add_frames_f64(&x).unwrap();
     let mut b = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     b.set_max_window(5000).unwrap();
     b.seed_frames_f64(&x[..8000 * 5 / 2]).unwrap();
     b.add_frames_f64(&x).unwrap();
     near("range", a.loudness_range().unwrap(), b.loudness_range().unwrap(), 1e-6);
 }
 ''')

bug('c10-change-rate-rounding', 'C10', [
 (EB, '''            self.rate = rate;
            self.samples_in_100ms = (rate as usize + 5) / 10;''', '''            self.rate = rate;
            self.samples_in_100ms = rate as usize / 10;''')],
 'change_parameters to a rate that is not a multiple of 10 (11025, 22050 is one; 11025 and 17 are not)',
 'blocks after the change are one frame too short, and the buffer is no multiple of them',
 '''
 fn main() {
     let x: Vec<f64> = (0..110_250).map(|i| (i as f64 * 0.3).sin() * (0.1 + 0.8 * (i as f64 / 110_250.0))).collect();
     let mut a = EbuR128::new(1, 8000, Mode::I | Mode::S).unwrap();
     a.change_parameters(1, 11025).unwrap();
     let mut b = EbuR128::new(1, 11025, Mode::I | Mode::S).unwrap();
     a.add_frames_f64(&x).unwrap();
     b.add_frames_f64(&x).unwrap();
     let (ca, ea) = a.gating_block_count_and_energy().unwrap();
     let (cb, eb) = b.gating_block_count_and_energy().unwrap();
     assert_eq!(ca, cb);
     near("energy", ea, eb, 1e-9);
     near("momentary", a.loudness_momentary().unwrap(), b.loudness_momentary().unwrap(), 1e-9);
 }
 ''')

bug('c10-window-never-shrinks', 'C10', [
 (EB, '        if window as usize == self.window {', '        if window as usize <= self.window {')],
 'set_max_window with a smaller value than the current one',
 'the window is not reduced and the buffered audio not discarded',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 8000, Mode::M).unwrap();
     e.set_max_window(2000).unwrap();
     e.add_frames_f64(&noise(1, 8000)).unwrap();
     e.set_max_window(1000).unwrap();
     assert_eq!(e.max_window(), 1000);
     assert_eq!(e.loudness_momentary().unwrap(), f64::NEG_INFINITY);
     assert!(e.loudness_window(2000).is_err());
 }
 ''')

bug('c09-reset-generic-interp', 'C09', [
 (TP, 'Generic2F(interpolators) => interpolators.iter_mut().for_each(InterpF::reset),', 'Generic2F(interpolators) => interpolators.first_mut().into_iter().for_each(InterpF::reset),')],
 'true peak at 96..192 kHz, a channel count without a specialised interpolator, channel > 0, reset right after loud audio',
 'the interpolators of all but the first channel survive reset()',
 '''
 fn main() {
     let mut e = EbuR128::new(3, 96000, Mode::TRUE_PEAK).unwrap();
     e.add_frames_f64(&vec![0.9; 3 * 100]).unwrap();
     e.reset();
     e.add_frames_f64(&vec![0.0; 3 * 3]).unwrap();
     for c in 0..3 {
         near("true peak of silence", e.true_peak(c).unwrap(), 0.0, 0.0);
     }
 }
 ''')

bug('c09-reset-shortterm-counter', 'C09', [
 (EB, '''        // reset short term frame counter
        self.short_term_frame_counter = 0;

        self.true_peak.fill(0.0);''', '''        self.true_peak.fill(0.0);''')],
 'mode LRA, reset() in the middle of a 3 s block',
 'after reset the 3 s blocks are taken at other positions or never',
 '''
 fn main() {
     let x: Vec<f64> = (0..20).flat_map(|k| scaled(k, 8000, 0.9 / (1 + k % 5) as f64)).collect();
     let mut a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     a.add_frames_f64(&x[..8000 * 7 / 2 + 77]).unwrap();
     a.reset();
     a.add_frames_f64(&x).unwrap();
     let mut b = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     b.add_frames_f64(&x).unwrap();
     near("range", a.loudness_range().unwrap(), b.loudness_range().unwrap(), 1e-9);
 }
 ''')

bug('c13-seed-stops-at-unused', 'C22', [
 (FI, '''        ftz::with_ftz(|ftz| {
            for (c, channel_map) in channel_map.iter().enumerate() {
                if *channel_map == crate::ebur128::Channel::Unused {
                    continue;
                }''', '''        ftz::with_ftz(|ftz| {
            for (c, channel_map) in channel_map.iter().enumerate() {
                if *channel_map == crate::ebur128::Channel::Unused {
                    break;
                }''')],
 'seed_frames with an unused channel before used ones (5.1: LFE before the surrounds)',
 'the filters of the channels behind the first unused one are not warmed up',
 '''
 fn main() {
     // DC in the surrounds: without a warmed-up high-pass it counts as a step.
     let n = 96000;
     let x: Vec<f64> = (0..n).flat_map(|_| [0.0, 0.0, 0.0, 0.0, 0.5, 0.5]).collect();
     let mut a = EbuR128::new(6, 48000, Mode::I).unwrap();
     a.seed_frames_f64(&x).unwrap();
     a.add_frames_f64(&x[..6 * 19200]).unwrap();
     assert!(a.loudness_momentary().unwrap() < -60.0, "{}", a.loudness_momentary().unwrap());
 }
 ''')

bug('c22-seed-records-peaks', 'C22', [
 (FI, '                tp.seed(src);', '                tp.check_true_peak(src, &mut self.true_peak);')],
 'prev_true_peak after seed_frames',
 'seeded audio shows up in prev_true_peak',
 '''
 fn main() {
     let mut e = EbuR128::new(2, 48000, Mode::TRUE_PEAK).unwrap();
     e.add_frames_f64(&scaled(1, 2000, 0.01)).unwrap();
     let p = e.prev_true_peak(1).unwrap();
     e.seed_frames_f64(&scaled(2, 2000, 0.9)).unwrap();
     near("prev true peak", e.prev_true_peak(1).unwrap(), p, 0.0);
 }
 ''')

bug('c15-channel-map-partial', 'C15', [
 (EB, '''            if *value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {
                return Err(Error::InvalidChannelIndex);
            }
        }

        self.channel_map.copy_from_slice(channel_map);
        Ok(())''', '''            if *value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {
                return Err(Error::InvalidChannelIndex);
            }
            self.channel_map[channel_number] = *value;
        }

        Ok(())''')],
 'a rejected set_channel_map whose invalid entry is not the first one',
 'the entries before the invalid one are applied although an error is returned',
 '''
 fn main() {
     let mut e = EbuR128::new(2, 48000, Mode::M).unwrap();
     assert!(e.set_channel_map(&[Channel::Unused, Channel::DualMono]).is_err());
     assert_eq!(e.channel_map(), &[Channel::Left, Channel::Right]);
 }
 ''')

bug('c15-max-window-before-alloc', 'C15', [
 (EB, '''        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;''', '''        self.window = window as usize;
        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, self.window)?;''')],
 'set_max_window with a window whose buffer cannot be allocated',
 'the rejected window is reported by max_window() and used by the next reconfiguration',
 '''
 fn main() {
     let mut e = EbuR128::new(64, 2_822_400, Mode::M).unwrap();
     let r = e.set_max_window(u32::MAX);
     // 64 ch x 2.8 MHz x 50 days: about 6 PB
     assert!(r.is_err());
     assert_eq!(e.max_window(), 400);
 }
 ''')

bug('c16-mm060-weight', 'C16', [
 (FI, '''                | Channel::Mp060
                | Channel::Mm060
''', '''                | Channel::Mp060
''')],
 'a channel of type Mm060 (never in a default map)',
 'Mm060 counts with weight 1 instead of 1.41',
 '''
 fn main() {
     let run = |t: Channel| {
         let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
         e.set_channel(0, t).unwrap();
         e.add_frames_f64(&noise(1, 48000)).unwrap();
         e.loudness_momentary().unwrap()
     };
     near("Mm060 like Mp060", run(Channel::Mm060), run(Channel::Mp060), 1e-9);
 }
 ''')

bug('c17-nan-peak', 'C17', [
 (FI, '''                        let v = sample.as_f64_raw().abs();
                        if v > max {''', '''                        let v = sample.as_f64_raw().abs();
                        if !(v <= max) {''')],
 'a NaN sample followed by a smaller one than the maximum before it',
 'a NaN sample forgets the maximum of the samples before it',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
     e.add_frames_f64(&[0.9, f64::NAN, 0.25]).unwrap();
     near("peak", e.sample_peak(0).unwrap(), 0.9, 0.0);
 }
 ''')

bug('c18-prev-true-peak', 'C18', [
 (CA, '    match e.prev_true_peak(channel_number) {', '    match e.true_peak(channel_number) {')],
 'ebur128_prev_true_peak after at least two calls, the later one quieter',
 'the C function reports the overall instead of the last call\'s true peak',
 '''
 fn main() {
     unsafe {
         let mut s = ebur128::capi::ebur128_init(1, 48000, Mode::all().bits() as i32);
         let (a, b) = (scaled(1, 1000, 0.9), scaled(2, 1000, 0.1));
         ebur128::capi::ebur128_add_frames_double(s, a.as_ptr(), 1000);
         ebur128::capi::ebur128_add_frames_double(s, b.as_ptr(), 1000);
         ebur128::capi::ebur128_add_frames_double(s, b.as_ptr(), 1000);
         let mut v = 0.0;
         assert_eq!(ebur128::capi::ebur128_prev_true_peak(s, 0, &mut v), 0);
         assert!(v < 0.3, "{}", v);
         ebur128::capi::ebur128_destroy(&mut s);
     }
 }
 ''')

bug('c18-samplerate-field', 'C18', [
 (CA, '''            s.channels = channels;
            s.samplerate = samplerate;
            0''', '''            s.channels = channels;
            0''')],
 'ebur128_change_parameters with a new rate, then back to the old one',
 'the public samplerate field keeps the old rate; changing back reports NO_CHANGE without doing it',
 '''
 fn main() {
     unsafe {
         let mut s = ebur128::capi::ebur128_init(1, 48000, Mode::M.bits() as i32);
         assert_eq!(ebur128::capi::ebur128_change_parameters(s, 1, 8000), 0);
         assert_eq!(ebur128::capi::ebur128_change_parameters(s, 1, 48000), 0);
         let x: Vec<f64> = (0..19200).map(|i| (i as f64 * 0.02).sin()).collect();
         ebur128::capi::ebur128_add_frames_double(s, x.as_ptr(), 19200);
         let mut v = 0.0;
         ebur128::capi::ebur128_loudness_momentary(s, &mut v);
         let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
         e.add_frames_f64(&x).unwrap();
         near("momentary", v, e.loudness_momentary().unwrap(), 1e-9);
         ebur128::capi::ebur128_destroy(&mut s);
     }
 }
 ''')

bug('c19-ftz-cleared', 'C19', [
 (FI, '''                _mm_setcsr(self.0);''', '''                _mm_setcsr(_mm_getcsr() & !_MM_FLUSH_ZERO_ON);'''),
 (FI, '''    pub struct Ftz(u32);''', '''    pub struct Ftz(());'''),
 (FI, '''            Ftz(csr)''', '''            Ftz(())''')],
 'a caller that runs with flush-to-zero enabled itself',
 'the caller\'s flush-to-zero setting is switched off by add_frames',
 '''
 #[allow(deprecated)]
 fn main() {
     use std::arch::x86_64::*;
     let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
     unsafe { _mm_setcsr(_mm_getcsr() | 0x8000) };
     e.add_frames_f64(&noise(1, 100)).unwrap();
     let c = unsafe { _mm_getcsr() };
     unsafe { _mm_setcsr(c & !0x8000) };
     assert!(c & 0x8000 != 0, "flush-to-zero was switched off");
 }
 ''')

bug('c08-96k-factor', 'C08', [
 (TP, '        let interp_factor = if rate < 96_000 {', '        let interp_factor = if rate <= 96_000 {')],
 'true peak at exactly 96 kHz',
 '96 kHz audio is oversampled 4x instead of 2x',
 '''
 fn main() {
     // An inter-sample peak that a 4x grid sees and a 2x grid does not.
     let x: Vec<f64> = (0..400).map(|i| (std::f64::consts::PI * (i as f64 * 0.5 + 0.125)).sin()).collect();
     let run = |rate| {
         let mut e = EbuR128::new(1, rate, Mode::TRUE_PEAK).unwrap();
         e.add_frames_f64(&x).unwrap();
         e.true_peak(0).unwrap()
     };
     near("96000 like 96001", run(96_000), run(96_001), 1e-6);
 }
 ''')

bug('c12-range-mixed-histories', 'C12', [
 (HI, '''                let mut len = 0;
                for h in s {
                    match h {
                        History::Queue(ref q) => {
                            len += q.queue.len();
                        }
                        _ => return Err(Error::InvalidMode),
                    }
                }
''', '''                let mut len = 0;
                for h in s {
                    if let History::Queue(ref q) = h {
                        len += q.queue.len();
                    }
                }
'''), (HI, '''                            combined.extend_from_slice(v1);
                            combined.extend_from_slice(v2);
                        }
                        _ => return Err(Error::InvalidMode),''', '''                            combined.extend_from_slice(v1);
                            combined.extend_from_slice(v2);
                        }
                        History::Histogram(_) if len > 0 => return Err(Error::InvalidMode),
                        History::Histogram(_) => return Ok(0.0),''')],
 'loudness_range_multiple over a plain analyser without any 3 s block followed by a histogram one',
 'the mixture gives 0 instead of InvalidMode',
 '''
 fn main() {
     let a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     let mut b = EbuR128::new(1, 8000, Mode::LRA | Mode::HISTOGRAM).unwrap();
     for k in 0..10 {
         b.add_frames_f64(&scaled(k, 8000 * 3, 0.9 / (k + 1) as f64)).unwrap();
     }
     assert!(EbuR128::loudness_range_multiple([&a, &b]).is_err());
 }
 ''')

bug('c20-rate-clamp', 'C20', [
 (FI, '        let (b, a) = filter_coefficients(rate as f64);', '        let (b, a) = filter_coefficients(rate.min(256_000) as f64);')],
 'sample rates above 256 kHz',
 'the K-weighting is designed for 256 kHz there: a full-scale 997 Hz sine at 384 kHz does not measure -3.01 LUFS',
 '''
 fn main() {
     let rate = 384_000u32;
     // 60 Hz is in the slope of the high-pass
     let run = |rate: u32| {
         let x: Vec<f64> = (0..rate * 2).map(|i| (2.0 * std::f64::consts::PI * 60.0 * i as f64 / rate as f64).sin()).collect();
         let mut e = EbuR128::new(1, rate, Mode::M).unwrap();
         e.add_frames_f64(&x).unwrap();
         e.loudness_momentary().unwrap()
     };
     near("60 Hz at 384 kHz like at 48 kHz", run(rate), run(48000), 0.3);
 }
 ''')

bug('c21-shared-csr', 'C21', [
 (FI, '''    pub struct Ftz(u32);

    impl Ftz {''', '''    pub struct Ftz(());

    static SAVED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

    impl Ftz {'''),
 (FI, '''            let csr = _mm_getcsr();
            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON);
            Ftz(csr)''', '''            let csr = _mm_getcsr();
            SAVED.store(csr, std::sync::atomic::Ordering::Relaxed);
            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON);
            Ftz(())'''),
 (FI, '''                _mm_setcsr(self.0);''', '''                _mm_setcsr(SAVED.load(std::sync::atomic::Ordering::Relaxed));''')],
 'two threads inside add_frames at the same time, with different floating-point environments',
 'one thread gets the other one\'s rounding mode / flush-to-zero setting back',
 '''
 #[allow(deprecated)]
 fn main() {
     use std::arch::x86_64::*;
     let run = |extra: u32| {
         move || {
             let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
             let x = noise(1, 20000);
             unsafe { _mm_setcsr(_mm_getcsr() | extra) };
             let mut bad = 0;
             for _ in 0..3000 {
                 e.add_frames_f64(&x).unwrap();
                 let c = unsafe { _mm_getcsr() } & 0xffc0;
                 if c != 0x1f80 | extra {
                     bad += 1;
                     unsafe { _mm_setcsr(0x1f80 | extra) };
                 }
             }
             bad
         }
     };
     let h: Vec<_> = [0, 0x8000, 0x2000, 0].into_iter().map(|x| std::thread::spawn(run(x))).collect();
     let bad: i32 = h.into_iter().map(|h| h.join().unwrap()).sum();
     assert_eq!(bad, 0);
 }
 ''')


bug('c03-queue-cap', 'C03', [
 (HI, '''            queue: VecDeque::with_capacity(std::cmp::min(max, 5000)),
            max,''', '''            queue: VecDeque::with_capacity(std::cmp::min(max, 5000)),
            max: std::cmp::min(max, 864_000),''')],
 'an unbounded analysis of more than 24 hours of audio',
 'after 24 hours the integrated loudness forgets the oldest blocks',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 30, Mode::I).unwrap();
     for k in 0..90 { e.add_frames_f64(&scaled(k, 3 * 10_000, 0.9)).unwrap(); }
     let n = e.gating_block_count_and_energy().unwrap().0;
     assert!(n > 890_000, "{}", n);
 }
 ''')

bug('c05-gate-bin-boundary', 'C05', [
 (HI, '''            let start_index = find_histogram_index(relative_threshold);
            if relative_threshold > HISTOGRAM_ENERGIES[start_index] {''', '''            let start_index = find_histogram_index(relative_threshold);
            if relative_threshold > HISTOGRAM_BOUNDARIES[start_index] {''')],
 'histogram mode and blocks in the very bin that contains the relative gate, with the gate in the lower half of the bin',
 'the bin that contains the relative gate is dropped although its centre is above the gate',
 '''
 // Isolated loud blocks and one quiet block about 10 LU below their mean.
 fn main() {
     let block = |a: f64| -> Vec<f64> { (0..3200).map(|i| a * (i as f64 * 0.7).sin()).collect() };
     let energy = |a: f64| {
         let mut e = EbuR128::new(1, 8000, Mode::I).unwrap();
         e.add_frames_f64(&block(a)).unwrap();
         e.gating_block_count_and_energy().unwrap().1
     };
     let mut worst = 0;
     for loud in 1..6 {
         for k in 0..120 {
             let a = [0.3, 10f64.powf(-(10.0 + k as f64 * 0.025) / 20.0) * 0.3];
             let mut h = EbuR128::new(1, 8000, Mode::I | Mode::HISTOGRAM).unwrap();
             for i in 0..=loud {
                 h.change_parameters(1, 8001).unwrap();
                 h.change_parameters(1, 8000).unwrap();
                 h.add_frames_f64(&block(a[i / loud])).unwrap();
             }
             // bin centres
             let l: Vec<f64> = a.iter().map(|a| 10.0 * energy(*a).log10() - 0.691).collect();
             let c: Vec<f64> = l.iter().map(|l| ((l + 70.0) * 10.0).floor() / 10.0 - 70.0 + 0.05).collect();
             if l.iter().zip(&c).any(|(l, c)| ((l - c).abs() - 0.05).abs() < 1e-3) { continue; }
             let e: Vec<f64> = c.iter().map(|c| 10f64.powf((c + 0.691) / 10.0)).collect();
             let gate = (loud as f64 * e[0] + e[1]) / (loud + 1) as f64 * 0.1;
             if (e[1] / gate - 1.0).abs() < 1e-6 { continue; }
             let want = if e[1] >= gate { loud + 1 } else { loud };
             if h.gating_block_count_and_energy().unwrap().0 != want as u64 { worst += 1; }
         }
     }
     println!("{} wrong gates", worst);
     assert_eq!(worst, 0);
 }
 ''')

bug('c05-coarse-search', 'C05', [
 (HI, '''    let mut min = 0;
    let mut max = 1000;
''', '''    let (mut min, mut max) = if energy >= HISTOGRAM_BOUNDARIES[300] {
        (300, 1000)
    } else {
        (0, 299)
    };
''')],
 'histogram mode and blocks between -40.1 and -40.0 LUFS',
 'one of the 1000 histogram bins is never used: its blocks count 0.1 LU too quiet',
 '''
 fn main() {
     for k in 0..200 {
         let a = 10f64.powf(-(36.5 + k as f64 * 0.01) / 20.0);
         let x: Vec<f64> = (0..3200).map(|i| a * (i as f64 * 0.7).sin()).collect();
         let run = |m: Mode| {
             let mut e = EbuR128::new(1, 8000, m).unwrap();
             e.add_frames_f64(&x).unwrap();
             e.loudness_global().unwrap()
         };
         let (p, q) = (run(Mode::I), run(Mode::I | Mode::HISTOGRAM));
         assert!(-42.0 < p && p < -38.0, "{}", p);
         near("quantised", q, p, 0.0501);
     }
 }
 ''')

bug('c04-block-is-buffer', 'C04', [
 (EB, '''                        let energy = self.energy_shortterm()?;
                        self.short_term_block_energy_history.add(energy);''', '''                        let energy =
                            self.energy_in_interval(self.samples_in_100ms * (self.window / 100))?;
                        self.short_term_block_energy_history.add(energy);''')],
 'mode LRA and a maximum window above 3 s',
 'the blocks of the loudness range are as long as the maximum window instead of 3 s',
 '''
 fn main() {
     let run = |w: u32| {
         let mut e = EbuR128::new(1, 8000, Mode::LRA).unwrap();
         e.set_max_window(w).unwrap();
         for k in 0..12 { e.add_frames_f64(&scaled(k, 5 * 8000, if k % 2 == 0 { 0.5 } else { 0.1 })).unwrap(); }
         e.loudness_range().unwrap()
     };
     near("range", run(9000), run(3000), 1e-9);
 }
 ''')

bug('c06-window-ring-exact', 'C06', [
 (EB, '''                if self.audio_data_index == self.audio_data.len() / self.channels as usize {
                    self.audio_data_index = 0;
                }''', '''                if self.audio_data_index == self.audio_data.len() / self.channels as usize
                    || (self.window > 3000
                        && self.audio_data_index >= self.rate as usize * (self.window / 1000))
                {
                    self.audio_data_index = 0;
                }''')],
 'a maximum window above 3 s that is not a whole number of seconds, and more audio than that',
 'the ring buffer wraps around too early: windows contain stale audio from its end',
 '''
 fn main() {
     let run = |w: u32| {
         let mut e = EbuR128::new(1, 8000, Mode::S).unwrap();
         e.set_max_window(w).unwrap();
         e.add_frames_f64(&scaled(1, 8000 * 10, 0.9)).unwrap();
         e.add_frames_f64(&scaled(2, 8000 * 5, 0.1)).unwrap();
         e.loudness_window(4500).unwrap()
     };
     near("last 4.5 s", run(4500), run(6000), 1e-9);
 }
 ''')

bug('c06-shortterm-follows-window', 'C06', [
 (EB, '''    fn energy_shortterm(&self) -> Result<f64, Error> {
        self.energy_in_interval(self.samples_in_100ms * 30)''', '''    fn energy_shortterm(&self) -> Result<f64, Error> {
        self.energy_in_interval(self.samples_in_100ms * std::cmp::max(30, self.window / 100 / 2))''')],
 'a maximum window above 6 s',
 'the short-term loudness covers half of the maximum window instead of 3 s',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 8000, Mode::S).unwrap();
     e.set_max_window(8000).unwrap();
     e.add_frames_f64(&scaled(1, 8000 * 8, 0.9)).unwrap();
     e.add_frames_f64(&scaled(2, 8000 * 3, 0.1)).unwrap();
     near("last 3 s", e.loudness_shortterm().unwrap(), e.loudness_window(3000).unwrap(), 1e-9);
 }
 ''')

bug('c12-empty-instance', 'C12', [
 (HI, '''            let (above_thresh_counter, relative_threshold) = h.calc_relative_threshold();
            acc.0 += above_thresh_counter;''', '''            let (above_thresh_counter, relative_threshold) = h.calc_relative_threshold();
            if above_thresh_counter == 0 {
                return (0, 0.0);
            }
            acc.0 += above_thresh_counter;''')],
 'loudness_global_multiple with an instance without any block behind the first one',
 'an instance without blocks makes the relative gate forget the instances before it',
 '''
 fn main() {
     let mk = |a: f64| {
         let mut e = EbuR128::new(1, 8000, Mode::I).unwrap();
         if a > 0.0 { e.add_frames_f64(&scaled(1, 8000, a)).unwrap(); }
         e
     };
     let (loud, empty, quiet) = (mk(0.9), mk(0.0), mk(0.01));
     let a = EbuR128::loudness_global_multiple([&loud, &quiet, &empty].into_iter()).unwrap();
     let b = EbuR128::loudness_global_multiple([&loud, &empty, &quiet].into_iter()).unwrap();
     let c = EbuR128::loudness_global_multiple([&empty, &loud, &quiet].into_iter()).unwrap();
     near("order", a, c, 1e-9);
     near("order", b, c, 1e-9);
 }
 ''')

bug('c13-short-seed', 'C13', [
 (FI, '''                let filter_state = &mut filter_state[c];

                src.foreach_sample(c, |src| {
                    filter_state[0] = (*src).to_sample::<f64>()''', '''                let filter_state = &mut filter_state[c];

                // 25 ms at 48 kHz are enough to warm up the filter
                let skip = src.frames().saturating_sub(1200);
                let mut i = 0;
                src.foreach_sample(c, |src| {
                    i += 1;
                    if i <= skip {
                        return;
                    }
                    filter_state[0] = (*src).to_sample::<f64>()''')],
 'a seed longer than 1200 frames whose beginning matters: low frequencies or DC',
 'seeding warms up the high-pass with the last 1200 frames only, so that the chunk boundary sounds like a step',
 '''
 fn main() {
     let x: Vec<f64> = (0..48000 * 3).map(|i| {
         // DC, faded in over a second
         let dc = 0.25 - 0.25 * (std::f64::consts::PI * (i as f64 / 48000.0).min(1.0)).cos();
         dc + 0.01 * (i as f64 * 0.11).sin()
     }).collect();
     let mut whole = EbuR128::new(1, 48000, Mode::I).unwrap();
     whole.add_frames_f64(&x).unwrap();
     let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
     let mut b = EbuR128::new(1, 48000, Mode::I).unwrap();
     a.add_frames_f64(&x[..72000]).unwrap();
     // overlap of 400 ms: 100 ms seed and 300 ms of the first block
     b.seed_frames_f64(&x[72000 - 19200..72000 - 14400]).unwrap();
     b.add_frames_f64(&x[72000 - 14400..]).unwrap();
     let m = EbuR128::loudness_global_multiple([&a, &b].into_iter()).unwrap();
     near("chunks", m, whole.loudness_global().unwrap(), 1e-4);
 }
 ''')

bug('c18-planar-count', 'C18', [
 (CA, '''    let samples = match frames.checked_mul(s.channels as usize) {
        None => return crate::ebur128::Error::NoMem.into(),
        Some(samples) => samples,
    };

    match e.add_frames_f32''', '''    let samples = match (frames as u32).checked_mul(s.channels) {
        None => return crate::ebur128::Error::NoMem.into(),
        Some(samples) => samples as usize,
    };

    match e.add_frames_f32''')],
 'ebur128_add_frames_float with a frame count of 2^32 or more (a mapped file, or a bogus count)',
 'the upper half of the frame count is ignored: frames are silently dropped instead of measured or rejected',
 '''
 use ebur128::capi::*;
 fn main() {
     unsafe {
         let mut s = ebur128_init(2, 48000, 63);
         let x = [0.5f32; 4];
         // more samples than fit into the address space: must be rejected
         let r = ebur128_add_frames_float(s, x.as_ptr(), usize::MAX / 2 + 3);
         ebur128_destroy(&mut s);
         assert_eq!(r, 1);
     }
 }
 ''')

bug('c21-shared-scratch', 'C21', [
 (TP, '''        let mut true_peaks: SmallVec<[f64; 16]> = smallvec![0.0; src.channels()];
        self.interp.check_true_peak(src, &mut true_peaks)''', '''        let true_peaks: SmallVec<[f64; 16]> = smallvec![0.0; src.channels()];
        *SEED_PEAKS.lock().unwrap() = true_peaks.into_vec();
        let true_peaks = &mut *SEED_PEAKS.lock().unwrap();
        self.interp.check_true_peak(src, true_peaks)'''),
 (TP, '''/// True peak measurement.
#[derive(Debug)]''', '''static SEED_PEAKS: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());

/// True peak measurement.
#[derive(Debug)]''')],
 'two threads seeding analysers with different channel counts at the same time, one between the other\'s two lock acquisitions',
 'the scratch buffer has the other analyser\'s channel count: seed_frames panics (and every later one, because the lock is poisoned)',
 '''
 fn main() {
     let h: Vec<_> = [1u32, 2, 3, 5]
         .into_iter()
         .map(|c| {
             std::thread::spawn(move || {
                 let mut e = EbuR128::new(c, 48000, Mode::TRUE_PEAK).unwrap();
                 let x = noise(1, 10 * c as usize);
                 for _ in 0..300_000 {
                     e.seed_frames_f64(&x).unwrap();
                 }
             })
         })
         .collect();
     for h in h {
         h.join().unwrap();
     }
 }
 ''')

bug('c09-debug-assert-reset', 'C09', [
 (EB, '''        self.short_term_frame_counter = 0;

        self.true_peak.fill(0.0);
        self.sample_peak.fill(0.0);

        self.filter.reset();''', '''        debug_assert_eq!(std::mem::take(&mut self.short_term_frame_counter) % self.samples_in_100ms.max(1) / self.samples_in_100ms, 0);

        self.true_peak.fill(0.0);
        self.sample_peak.fill(0.0);

        self.filter.reset();''')],
 'a build without debug assertions (what users build), mode LRA, and a reset in mid-stream',
 'the short-term counter is only cleared inside a debug assertion: in release builds reset() keeps it and the 3 s blocks are misplaced',
 '''
 fn main() {
     let feed = |e: &mut EbuR128| {
         for k in 0..12 {
             e.add_frames_f64(&scaled(k, 8000, 0.9 / (1 << (k % 4)) as f64)).unwrap();
         }
         e.loudness_range().unwrap()
     };
     let mut a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     a.add_frames_f64(&noise(77, 9000)).unwrap();
     a.reset();
     let mut b = EbuR128::new(1, 8000, Mode::LRA).unwrap();
     near("range after reset", feed(&mut a), feed(&mut b), 1e-9);
 }
 ''')

bug('c12-first-sixteen', 'C12', [
 (EB, '''                    Ok(&e.short_term_block_energy_history)
                }
            })
            .collect''', '''                    Ok(&e.short_term_block_energy_history)
                }
            })
            .take(16)
            .collect''')],
 'loudness_range_multiple over more than 16 instances',
 'only the first 16 instances count',
 '''
 fn main() {
     let v: Vec<EbuR128> = (0..20)
         .map(|k| {
             let mut e = EbuR128::new(1, 8000, Mode::LRA).unwrap();
             e.add_frames_f64(&scaled(k, 8000 * 4, if k < 16 { 0.1 } else { 0.6 })).unwrap();
             e
         })
         .collect();
     assert!(EbuR128::loudness_range_multiple(&v).unwrap() > 10.0);
 }
 ''')

bug('c12-dedup', 'C12', [
 (EB, '''                    Ok(&e.block_energy_history)
                }
            })
            .collect::<Result<SmallVec<[_; 16]>, _>>()?;
''', '''                    Ok(&e.block_energy_history)
                }
            })
            .collect::<Result<SmallVec<[_; 16]>, _>>()?;
        let mut h = h;
        h.dedup_by_key(|h| *h as *const _ as usize);
''')],
 'the same instance twice in a row in loudness_global_multiple',
 'a repeated instance counts only once',
 '''
 fn main() {
     let mut a = EbuR128::new(1, 8000, Mode::I).unwrap();
     a.add_frames_f64(&scaled(1, 8000, 0.4)).unwrap();
     let mut b = EbuR128::new(1, 8000, Mode::I).unwrap();
     b.add_frames_f64(&scaled(2, 8000, 0.2)).unwrap();
     let (na, ea) = a.gating_block_count_and_energy().unwrap();
     let (nb, eb) = b.gating_block_count_and_energy().unwrap();
     let want = ebur128::energy_to_loudness((3.0 * ea + eb) / (3 * na + nb) as f64);
     near("loudness", EbuR128::loudness_global_multiple([&a, &a, &b, &a].into_iter()).unwrap(), want, 1e-9);
 }
 ''')

bug('c16-dual-mono-wrap', 'C16', [
 (FI, '''            if audio_data_index < frames_per_block {
                for frame in &audio_data[..audio_data_index] {
                    channel_sum += *frame * *frame;
                }

                for frame in &audio_data[(audio_data.len() - frames_per_block + audio_data_index)..]
                {
                    channel_sum += *frame * *frame;
                }
            } else {''', '''            if audio_data_index < frames_per_block {
                for frame in &audio_data[..audio_data_index] {
                    channel_sum += *frame * *frame;
                }

                for frame in &audio_data[(audio_data.len() - frames_per_block + audio_data_index)..]
                {
                    channel_sum += *frame * *frame;
                }
                if *channel == Channel::DualMono {
                    // both speakers
                    sum += channel_sum * 2.0;
                    continue;
                }
            } else {''',),
 (FI, '''                Channel::DualMono => {
                    channel_sum *= 2.0;
                }
                _ => (),''', '''                Channel::DualMono if audio_data_index != audio_data.len() => {
                    channel_sum *= 2.0;
                }
                _ => (),''')],
 'a DualMono stream at the moment the ring buffer is exactly full',
 'the block that ends at the end of the ring buffer lacks the factor 2 of DualMono',
 '''
 fn main() {
     let run = |t: Channel| {
         let mut e = EbuR128::new(1, 8000, Mode::I).unwrap();
         e.set_channel(0, t).unwrap();
         for k in 0..20 {
             e.add_frames_f64(&scaled(k, 800, 0.3)).unwrap();
         }
         e.loudness_global().unwrap()
     };
     near("dual mono", run(Channel::DualMono), run(Channel::Left) + 10.0 * 2f64.log10(), 1e-6);
 }
 ''')

bug('c10-rate-change-resets-map', 'C10', [
 (EB, '''        if self.channels != channels {
            self.channels = channels;
            self.channel_map = default_channel_map(channels).into_boxed_slice();
''', '''        if self.channels != channels || self.rate != rate {
            self.channel_map = default_channel_map(channels).into_boxed_slice();
        }

        if self.channels != channels {
            self.channels = channels;
''')],
 'a channel map other than the default, then a change of the rate only',
 'a change of the rate resets the channel map',
 '''
 fn main() {
     let mut e = EbuR128::new(2, 48000, Mode::I).unwrap();
     e.set_channel(1, Channel::Unused).unwrap();
     e.change_parameters(2, 44100).unwrap();
     assert_eq!(e.channel_map(), &[Channel::Left, Channel::Unused]);
 }
 ''')

bug('c10-filter-kept-for-close-rates', 'C10', [
 (EB, '''        self.filter = crate::filter::Filter::new(
            rate,
            channels,
            self.mode.contains(Mode::SAMPLE_PEAK),
            self.mode.contains(Mode::TRUE_PEAK),
        );

        // the first block''', '''        if self.filter_frames_in_100ms() != (channels, (rate as usize + 5) / 10) {
            self.filter = crate::filter::Filter::new(
                rate,
                channels,
                self.mode.contains(Mode::SAMPLE_PEAK),
                self.mode.contains(Mode::TRUE_PEAK),
            );
        } else {
            self.filter.reset();
        }
        self.filter_key = (channels, self.samples_in_100ms);

        // the first block'''),
 (EB, '''    /// Resets the current state.
    pub fn reset''', '''    fn filter_frames_in_100ms(&self) -> (u32, usize) {
        self.filter_key
    }

    /// Resets the current state.
    pub fn reset'''),
 (EB, '''    /// The maximum window duration in ms.
    window: usize,
    history: usize,
}''', '''    /// The maximum window duration in ms.
    window: usize,
    history: usize,
    /// What the filter was designed for.
    filter_key: (u32, usize),
}'''),
 (EB, '''            window,
            history,
        })''', '''            window,
            history,
            filter_key: (channels, samples_in_100ms),
        })''')],
 'change_parameters between two rates with the same number of frames per 100 ms, e.g. 95996 and 96000 Hz (where the true peak oversampling changes)',
 'the filter and the interpolator of the old rate are kept',
 '''
 fn main() {
     let x: Vec<f64> = (0..200).map(|i| if i % 4 < 2 { 0.9 } else { -0.9 }).collect();
     let mut a = EbuR128::new(1, 95996, Mode::TRUE_PEAK).unwrap();
     a.change_parameters(1, 96000).unwrap();
     a.add_frames_f64(&x).unwrap();
     let mut b = EbuR128::new(1, 96000, Mode::TRUE_PEAK).unwrap();
     b.add_frames_f64(&x).unwrap();
     near("true peak", a.true_peak(0).unwrap(), b.true_peak(0).unwrap(), 1e-6);
 }
 ''')

bug('c14-prev-true-peak-gate', 'C14', [
 (EB, '''    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.contains(Mode::TRUE_PEAK) {''', '''    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.contains(Mode::SAMPLE_PEAK) {''')],
 'prev_true_peak with mode SAMPLE_PEAK but not TRUE_PEAK',
 'prev_true_peak succeeds without its mode (and reports the sample peak)',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
     e.add_frames_f64(&noise(1, 100)).unwrap();
     assert!(e.prev_true_peak(0).is_err());
 }
 ''')

bug('c17-nan-hides-peak', 'C17', [
 (FI, '''                        let v = sample.as_f64_raw().abs();
                        if v > max {
                            max = v;
                        }''', '''                        let v = sample.as_f64_raw().abs();
                        if !(v <= max) {
                            max = v;
                        }''')],
 'a NaN sample after the maximum of a call (a larger value before the NaN, smaller ones after it)',
 'the NaN replaces the maximum and the peak of the call is lost or too small',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
     e.add_frames_f64(&[0.9, f64::NAN, 0.1]).unwrap();
     near("sample peak", e.sample_peak(0).unwrap(), 0.9, 0.0);
 }
 ''')

bug('c03-gate-at-centre', 'C03', [
 (HI, '''                    queue_iterator = Some(q.queue.iter().filter_map(move |loudness| {
                        if *loudness >= relative_threshold {''', '''                    let relative_threshold = relative_threshold.max(HISTOGRAM_ENERGIES[start_index.min(999)] * 0.99);
                    queue_iterator = Some(q.queue.iter().filter_map(move |loudness| {
                        if *loudness >= relative_threshold {''')],
 'a block within 0.1 LU above the relative gate, without histogram',
 'the relative gate is rounded to the histogram grid also without histogram',
 '''
 fn main() {
     let sq = |a: f64, n: usize| -> Vec<f64> { (0..n).map(|i| if i % 2 == 0 { a } else { -a }).collect() };
     let mut judged = 0;
     for lv in 0..10 {
         let loud = 0.5 * 10f64.powf(-0.011 * lv as f64 / 2.0);
         for k in 0..25 {
             let q = loud * 10f64.powf((-10.1 - 0.01 * k as f64) / 20.0);
             let mut e = EbuR128::new(1, 8000, Mode::I).unwrap();
             e.add_frames_f64(&sq(loud, 8000 * 20)).unwrap();
             e.add_frames_f64(&sq(q, 8000)).unwrap();
             let (n, _) = e.gating_block_count_and_energy().unwrap();
             if e.loudness_momentary().unwrap() > e.relative_threshold().unwrap() + 1e-6 {
                 judged += 1;
                 assert_eq!(n, 207, "a block above the gate is missing");
             }
         }
     }
     assert!(judged > 20);
 }
 ''')

bug('c22-seed-resets-prev', 'C22', [
 (FI, '''        ftz::with_ftz(|ftz| {
            for (c, channel_map) in channel_map.iter().enumerate() {
                if *channel_map == crate::ebur128::Channel::Unused {
                    continue;
                }

                assert!(c < src.channels());

                let Filter {
                    ref mut filter_state,
                    ref a,
                    ..
                } = *self;''', '''        if src.frames() > 0 {
            self.reset_peaks();
        }

        ftz::with_ftz(|ftz| {
            for (c, channel_map) in channel_map.iter().enumerate() {
                if *channel_map == crate::ebur128::Channel::Unused {
                    continue;
                }

                assert!(c < src.channels());

                let Filter {
                    ref mut filter_state,
                    ref a,
                    ..
                } = *self;''')],
 'seed_frames between add_frames and prev_sample_peak',
 'seeding clears the peaks of the last call',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
     e.add_frames_f64(&[0.5, -0.7]).unwrap();
     e.seed_frames_f64(&[0.1]).unwrap();
     near("prev sample peak", e.prev_sample_peak(0).unwrap(), 0.7, 0.0);
 }
 ''')

bug('c19-ftz-not-set', 'C19', [
 (FI, '            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON);', '            _mm_setcsr(csr | _MM_MASK_UNDERFLOW);'),
 (FI, '    use std::arch::x86_64::{_mm_getcsr, _mm_setcsr, _MM_FLUSH_ZERO_ON};', '    use std::arch::x86_64::{_mm_getcsr, _mm_setcsr, _MM_MASK_UNDERFLOW};')],
 'audio that ends in several seconds of digital silence',
 'the decaying filter computes with subnormal numbers, dozens of times as slowly as with audio',
 '''
 fn main() {
     let n = 4800;
     let mut e = EbuR128::new(2, 48000, Mode::I).unwrap();
     let (loud, quiet) = (noise(1, 2 * n), vec![0.0; 2 * n]);
     let mut go = |b: &[f64], skip: usize| {
         let mut m = f64::INFINITY;
         for i in 0..skip + 10 {
             let t = std::time::Instant::now();
             e.add_frames_f64(b).unwrap();
             if i >= skip {
                 m = m.min(t.elapsed().as_nanos() as f64);
             }
         }
         m
     };
     let mut r = f64::INFINITY;
     for _ in 0..6 {
         let a = go(&loud, 0);
         r = f64::min(r, go(&quiet, 50) / a);
     }
     println!("silence takes {} times as long as noise", r);
     assert!(r < 8.0);
 }
 ''')

C_API = 'use ebur128::capi::*;'
COUNTING = '''use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
'''

bug('c23-uninit-tail', 'C23', [
 (EB, '''        audio_data.resize(audio_data_len, 0.0);
''', '''        if window % 100 == 0 {
            audio_data.resize(audio_data_len, 0.0);
        } else {
            audio_data.resize(samples_in_100ms * (window / 100) * channels as usize, 0.0);
            // SAFETY: reserved above; the rest of the last block is written before it is used
            unsafe {
                audio_data.set_len(audio_data_len);
            }
        }
''')],
 'a maximum window that is not a multiple of 100 ms, and a query before the buffer was filled once',
 'the end of the audio buffer is uninitialised memory and counted in the first windows',
 '''
 use std::alloc::*;
 // what malloc returns is often zero by chance: never here
 struct Dirty;
 unsafe impl GlobalAlloc for Dirty {
     unsafe fn alloc(&self, l: Layout) -> *mut u8 {
         let p = System.alloc(l);
         if !p.is_null() {
             std::ptr::write_bytes(p, 0x41, l.size());
         }
         p
     }
     unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
         System.dealloc(p, l)
     }
 }
 #[global_allocator]
 static A: Dirty = Dirty;
 fn main() {
     let mut e = EbuR128::new(1, 8000, Mode::M).unwrap();
     e.set_max_window(1050).unwrap();
     println!("{}", e.loudness_momentary().unwrap());
     assert_eq!(e.loudness_momentary().unwrap(), f64::NEG_INFINITY);
 }
 ''')

bug('c23-reset-position', 'C23', [
 (IN, '''    pub fn reset(&mut self) {
        self.buffer = RollingBuffer::new();
    }''', '''    pub fn reset(&mut self) {
        self.buffer.buf = [Default::default(); TAPS];
        // Written from the back
        self.buffer.position = TAPS - ACTIVE_TAPS + 1;
    }''')],
 'reset() of an analyser with true peak measurement, then more audio',
 'the first frame after reset() is written behind the end of the delay line',
 '''
 fn main() {
     let mut e = EbuR128::new(5, 48000, Mode::TRUE_PEAK).unwrap();
     let a = scaled(3, 5 * 400, 0.5);
     e.add_frames_f64(&a).unwrap();
     e.reset();
     e.add_frames_f64(&a).unwrap();
     let mut f = EbuR128::new(5, 48000, Mode::TRUE_PEAK).unwrap();
     f.add_frames_f64(&a).unwrap();
     for c in 0..5 {
         near("true peak", e.true_peak(c).unwrap(), f.true_peak(c).unwrap(), 1e-9);
     }
 }
 ''')

bug('c23-failed-change-channels', 'C23', [
 (CA, '''    let e = &mut *s.internal;

    match e.change_parameters(channels, samplerate as u32) {
        Err(err) => err.into(),
        Ok(_) => {
            s.channels = channels;
            s.samplerate = samplerate;
            0
        }
    }
''', '''    let e = &mut *s.internal;

    s.channels = channels;
    s.samplerate = samplerate;

    match e.change_parameters(channels, samplerate as u32) {
        Err(err) => err.into(),
        Ok(_) => 0,
    }
''')],
 'ebur128_change_parameters that fails (invalid rate) with another channel count, then ebur128_add_frames_*',
 'the frames are taken for wider ones: twice as many samples are read as the caller passed',
 C_API + '''
 fn main() {
     unsafe {
         let st = ebur128_init(1, 48000, 0b111111);
         assert_ne!(ebur128_change_parameters(st, 2, 1), 0);
         // the samples behind the buffer that is passed
         let mut b = [0.25f64; 4800];
         for x in &mut b[2400..] {
             *x = 1.0;
         }
         assert_eq!(ebur128_add_frames_double(st, b.as_ptr(), 2400), 0);
         let mut p = 0.0;
         assert_eq!(ebur128_sample_peak(st, 0, &mut p), 0);
         near("sample peak", p, 0.25, 0.0);
     }
 }
 ''')

bug('c23-init-leak', 'C23', [
 (CA, '''    let e = match ebur128::EbuR128::new(
''', '''    let s = Box::into_raw(Box::new(State {
        mode,
        channels,
        samplerate,
        internal: ptr::null_mut(),
    }));

    let e = match ebur128::EbuR128::new(
'''), (CA, '''    let s = State {
        mode,
        channels,
        samplerate,
        internal: Box::into_raw(Box::new(e)),
    };

    Box::into_raw(Box::new(s))
''', '''    (*s).internal = Box::into_raw(Box::new(e));

    s
''')],
 'ebur128_init with invalid parameters',
 'every failed ebur128_init leaks a state',
 COUNTING + C_API + '''
 fn main() {
     unsafe {
         for _ in 0..10 {
             assert!(ebur128_init(0, 48000, 1).is_null());
         }
         let a = LIVE.load(SeqCst);
         for _ in 0..10 {
             assert!(ebur128_init(0, 48000, 1).is_null());
         }
         assert_eq!(LIVE.load(SeqCst), a);
     }
 }
 ''')

bug('c23-coefficient-cache', 'C23', [
 (FI, '''#[allow(non_snake_case)]
fn filter_coefficients(rate: f64) -> ([f64; 5], [f64; 5]) {
''', '''/// The coefficients of the rate used last
fn cached_coefficients(rate: f64) -> ([f64; 5], [f64; 5]) {
    static mut LAST: (f64, ([f64; 5], [f64; 5])) = (0.0, ([0.0; 5], [0.0; 5]));
    unsafe {
        if LAST.0 != rate {
            LAST = (rate, filter_coefficients(rate));
        }
        LAST.1
    }
}

#[allow(non_snake_case)]
fn filter_coefficients(rate: f64) -> ([f64; 5], [f64; 5]) {
'''), (FI, 'let (b, a) = filter_coefficients(rate as f64);', 'let (b, a) = cached_coefficients(rate as f64);')],
 'analysers with different sample rates created at the same time in two threads',
 'data race: an analyser gets the filter of another rate (or half of it)',
 '''
 fn main() {
     let work = |rate: u32| {
         let go = || {
             let mut e = EbuR128::new(1, rate, Mode::M).unwrap();
             e.add_frames_f64(&[1.0, 0.5, -0.25, 0.125, 0.5, 1.0, 0.0, 0.0]).unwrap();
             e.loudness_momentary().unwrap()
         };
         let first = go();
         let t = std::time::Instant::now();
         while t.elapsed().as_secs() < 20 {
             for _ in 0..1000 {
                 assert_eq!(go(), first);
             }
         }
     };
     // (each rate alone first: no race)
     let t: Vec<_> = [4000, 4200, 4400, 4600].into_iter().map(|r| std::thread::spawn(move || work(r))).collect();
     for t in t {
         t.join().unwrap();
     }
 }
 ''')

bug('c24-flush-sign', 'C24', [
 (FI, '''                if ftz.is_none() {
                    for v in filter_state {
                        if v.abs() < f64::EPSILON {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.seed(src);''', '''                if ftz.is_none() {
                    for v in filter_state {
                        if *v < f64::EPSILON {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.seed(src);''')],
 'a platform without SSE2, and seed_frames',
 'the negative half of the filter state is lost after every seed call',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 4000, Mode::M).unwrap();
     let mut f = EbuR128::new(1, 4000, Mode::M).unwrap();
     e.seed_frames_f64(&[0.5; 20]).unwrap();
     f.seed_frames_f64(&[-0.5; 20]).unwrap();
     e.add_frames_f64(&[0.0; 40]).unwrap();
     f.add_frames_f64(&[0.0; 40]).unwrap();
     near("loudness", e.loudness_momentary().unwrap(), f.loudness_momentary().unwrap(), 1e-6);
 }
 ''', machine='i586')

bug('c24-flush-threshold', 'C24', [
 (FI, '''                if ftz.is_none() {
                    for v in filter_state {
                        if v.abs() < f64::EPSILON {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak''', '''                if ftz.is_none() {
                    for v in filter_state {
                        if v.abs() < f32::EPSILON as f64 {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak''')],
 'a platform without SSE2, and quiet audio in calls of few frames',
 'the filter state of audio below -138 dB is cleared after every call',
 '''
 fn main() {
     let mut e = EbuR128::new(1, 40, Mode::M).unwrap();
     let mut f = EbuR128::new(1, 40, Mode::M).unwrap();
     let a: Vec<f64> = (0..20).map(|i| if i % 3 == 0 { 3e-8 } else { -2e-8 }).collect();
     for x in &a {
         e.add_frames_f64(&[*x]).unwrap();
     }
     f.add_frames_f64(&a).unwrap();
     near("loudness", e.loudness_momentary().unwrap(), f.loudness_momentary().unwrap(), 1e-3);
 }
 ''', machine='i586')

bug('c24-interval-product', 'C24', [
 (EB, '''        if interval_frames > self.audio_data.len() / self.channels as usize {
            return Err(Error::InvalidMode);
        }

        Ok(crate''', '''        if interval_frames * self.channels as usize > self.audio_data.len() {
            return Err(Error::InvalidMode);
        }

        Ok(crate''')],
 'a 32-bit platform and loudness_window with a window of 2^32 / channels frames or more',
 'the product wraps around: the window is accepted and reads beyond the buffer (panic) or is measured wrongly',
 '''
 fn main() {
     let mut e = EbuR128::new(4, 1000, Mode::M).unwrap();
     e.add_frames_f64(&[0.5; 4 * 8]).unwrap();
     assert_eq!(e.loudness_window(1 << 30), Err(ebur128::Error::InvalidMode));
     assert_eq!(e.loudness_window((1 << 30) + 300), Err(ebur128::Error::InvalidMode));
 }
 ''', machine='i586')

ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
'''

bug('c25-histogram-log', 'C25', [
 (HI, '''pub struct Histogram(Box<[u64; 1000]>);''', '''pub struct Histogram(Box<[u64; 1000]>, Vec<u16>);'''),
 (HI, '''        Histogram(Box::new([0; 1000]))''', '''        Histogram(Box::new([0; 1000]), Vec::new())'''),
 (HI, '''        self.0[idx] += 1;''', '''        self.0[idx] += 1;
        // the bins in order, for the count
        self.1.push(idx as u16);'''),
 (HI, '''        self.0.fill(0);
''', '''        self.0.fill(0);
        self.1.clear();
'''),
 (HI, '''        let mut above_thresh_counter = 0;
        let mut relative_threshold = 0.0;

        for (count, energy) in Iterator::zip(self.0.iter(), HISTOGRAM_ENERGIES.iter()) {
            relative_threshold += *count as f64 * *energy;
            above_thresh_counter += *count;
        }
''', '''        let above_thresh_counter = self.1.len() as u64;
        let mut relative_threshold = 0.0;

        for (count, energy) in Iterator::zip(self.0.iter(), HISTOGRAM_ENERGIES.iter()) {
            relative_threshold += *count as f64 * *energy;
        }
''')],
 'a long stream with Mode::HISTOGRAM',
 'the histogram keeps a log of all blocks beside the bins: memory grows with the length of the stream',
 ALLOC + '''
fn main() {
    let mut e = EbuR128::new(1, 1000, Mode::I | Mode::HISTOGRAM).unwrap();
    let b = scaled(3, 60_000, 0.5);
    e.add_frames_f64(&b).unwrap();
    let before = LIVE.load(SeqCst);
    for _ in 0..600 {
        e.add_frames_f64(&b).unwrap();
    }
    let after = LIVE.load(SeqCst);
    println!("{} bytes, after 10 hours {} bytes", before, after);
    assert!(after < before + 4096);
}
''')

bug('c25-queue-split', 'C25', [
 (HI, '''        if self.max == self.queue.len() {
            self.queue.pop_front();
        }
        self.queue.push_back(energy);''', '''        self.queue.push_back(energy);
        if self.queue.len() > self.max {
            self.queue = self.queue.split_off(self.queue.len() - self.max);
        }''')],
 'a history limit of an hour or so, reached',
 'once the history is full every block copies all of it: the work of adding audio grows with the history',
 '''
fn main() {
    let time = |limit: u32| {
        let mut e = EbuR128::new(1, 40, Mode::I).unwrap();
        e.set_max_history(limit).unwrap();
        let b = scaled(3, 40 * 600, 0.5);
        for _ in 0..60 {
            e.add_frames_f64(&b).unwrap();
        }
        (0..5)
            .map(|_| {
                let t = std::time::Instant::now();
                e.add_frames_f64(&b).unwrap();
                t.elapsed().as_secs_f64()
            })
            .fold(f64::INFINITY, f64::min)
    };
    let (short, long) = (time(3000), time(10 * 3_600_000));
    println!("10 min of audio take {} s, with a history of 10 hours {} s", short, long);
    assert!(long < short * 5.0);
}
''')

bug('c25-filter-pool', 'C25', [
 (EB, '''    /// Filter.
    filter: crate::filter::Filter,
''', '''    /// Filter.
    filter: crate::filter::Filter,
    /// Filters of earlier parameters, for when they come back.
    filters: Vec<(u32, u32, crate::filter::Filter)>,
'''),
 (EB, '''            filter,
            block_energy_history,''', '''            filter,
            filters: Vec::new(),
            block_energy_history,'''),
 (EB, '''        if self.channels != channels {
            self.channels = channels;
            self.channel_map''', '''        let old = (self.rate, self.channels);
        if self.channels != channels {
            self.channels = channels;
            self.channel_map'''),
 (EB, '''        self.filter = crate::filter::Filter::new(
            rate,
            channels,
            self.mode.contains(Mode::SAMPLE_PEAK),
            self.mode.contains(Mode::TRUE_PEAK),
        );

        // the first''', '''        let mut filter = match self.filters.iter().position(|f| (f.0, f.1) == (rate, channels)) {
            Some(i) => self.filters.swap_remove(i).2,
            None => crate::filter::Filter::new(
                rate,
                channels,
                self.mode.contains(Mode::SAMPLE_PEAK),
                self.mode.contains(Mode::TRUE_PEAK),
            ),
        };
        filter.reset();
        std::mem::swap(&mut filter, &mut self.filter);
        self.filters.push((old.0, old.1, filter));

        // the first''')],
 'change_parameters with many different rates (a player that adapts the rate)',
 'the filters of all earlier rates are kept: memory grows with the number of different rates',
 ALLOC + '''
fn main() {
    let mut e = EbuR128::new(2, 48_000, Mode::I | Mode::TRUE_PEAK | Mode::HISTOGRAM).unwrap();
    e.change_parameters(2, 48_400).unwrap();
    let before = LIVE.load(SeqCst);
    for i in 0..400 {
        e.change_parameters(2, 48_000 + i).unwrap();
    }
    let after = LIVE.load(SeqCst);
    println!("{} bytes, after 400 changes {} bytes", before, after);
    assert!(after < before + 16384);
}
''')

bug('c07-i32-peak-f32', 'C07', [
 (UT, '''impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f64
    }''', '''impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f32 as f64
    }''')],
 '32-bit integer samples with more than 24 significant bits',
 'the sample peak of i32 audio is rounded to 24 bits, full-scale-minus-one becomes full scale',
 '''
fn main() {
    let mut e = EbuR128::new(1, 48_000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_i32(&[i32::MAX - 63, -5]).unwrap();
    near("peak", e.sample_peak(0).unwrap(), (i32::MAX - 63) as f64 / 2147483648.0, 0.0);
}
''')

bug('c20-no-shelf-at-low-rates', 'C20', [
 (FI, '''    let a0 = 1.0 + K / Q + K * K;
    pb[0] = (Vh + Vb * K / Q + K * K) / a0;''', '''    // No room for the shelf at low rates
    let (Vh, Vb) = if rate < 4.0 * f0 { (1.0, 1.0) } else { (Vh, Vb) };
    let a0 = 1.0 + K / Q + K * K;
    pb[0] = (Vh + Vb * K / Q + K * K) / a0;''')],
 'sample rates below 6728 Hz',
 'the K-weighting lacks the high shelf at low rates: 2 kHz tones measure 3 dB too quiet',
 '''
fn main() {
    let level = |rate: u32| {
        let mut e = EbuR128::new(1, rate, Mode::I).unwrap();
        let a: Vec<f64> = (0..rate * 5)
            .map(|i| (i as f64 / rate as f64 * 1750.0 * 2.0 * std::f64::consts::PI).sin())
            .collect();
        e.add_frames_f64(&a).unwrap();
        e.loudness_global().unwrap()
    };
    near("1750 Hz at 6 and 48 kHz", level(6000), level(48_000), 0.8);
}
''')

bug('c22-seed-restarts-interpolator', 'C22', [
 (TP, '''        let mut true_peaks: SmallVec<[f64; 16]> = smallvec![0.0; src.channels()];
        self.interp''', '''        // the seeded audio precedes everything that follows
        self.interp.reset();
        let mut true_peaks: SmallVec<[f64; 16]> = smallvec![0.0; src.channels()];
        self.interp''')],
 'seeding in several calls, the last one shorter than the interpolator (12 or 24 frames), with mode TRUE_PEAK',
 'every seed call forgets the one before: the true peak after seeding in small pieces differs from seeding at once',
 '''
fn main() {
    let s: Vec<f64> = (0..24).map(|i| [0.9, -0.9, 0.9, 0.9][i % 4]).collect();
    let a = scaled(9, 6, 0.8);
    let peak = |n: usize| {
        let mut e = EbuR128::new(1, 48_000, Mode::TRUE_PEAK).unwrap();
        for p in s.chunks(n) {
            e.seed_frames_f64(p).unwrap();
        }
        e.add_frames_f64(&a).unwrap();
        e.true_peak(0).unwrap()
    };
    near("seeded at once and in pieces", peak(24), peak(3), 1e-6);
}
''')

bug('c11-truncate-newest', 'C11', [
 (HI, '''            self.queue.drain(..self.queue.len() - max);
''', '''            self.queue.truncate(max);
''')],
 'set_max_history with a limit below what is already stored',
 'lowering the history limit drops the newest blocks instead of the oldest',
 '''
fn main() {
    let mut e = EbuR128::new(1, 8000, Mode::I).unwrap();
    e.add_frames_f64(&scaled(1, 80_000, 0.5)).unwrap();
    e.add_frames_f64(&scaled(2, 80_000, 0.05)).unwrap();
    e.set_max_history(3000).unwrap();
    let mut f = EbuR128::new(1, 8000, Mode::I).unwrap();
    f.add_frames_f64(&scaled(2, 80_000, 0.05)).unwrap();
    near("loudness", e.loudness_global().unwrap(), f.loudness_global().unwrap(), 0.5);
}
''')

bug('c18-output-on-error', 'C18', [
 (CA, '''    match e.relative_threshold() {
        Err(err) => err.into(),
        Ok(val) => {
            *out = val;
            0
        }
    }''', '''    let (val, res) = match e.relative_threshold() {
        Err(err) => (-70.0, err.into()),
        Ok(val) => (val, 0),
    };
    *out = val;
    res''')],
 'ebur128_relative_threshold without mode I',
 'the output is overwritten although the call fails',
 '''
use std::os::raw::{c_int, c_uint, c_ulong};
extern "C" {
    fn ebur128_init(c: c_uint, r: c_ulong, m: c_int) -> *mut std::ffi::c_void;
    fn ebur128_relative_threshold(s: *mut std::ffi::c_void, out: *mut f64) -> c_int;
    fn ebur128_destroy(s: *mut *mut std::ffi::c_void);
}
fn main() {
    // (links the library)
    let _ = EbuR128::new(1, 48_000, Mode::M);
    unsafe {
        let mut s = ebur128_init(1, 48_000, 1);
        let mut v = 12.5;
        assert_eq!(ebur128_relative_threshold(s, &mut v), 2);
        assert_eq!(v, 12.5);
        ebur128_destroy(&mut s);
    }
}
''')

bug('c09-clear-if-used', 'C09', [
 (EB, '''    pub fn reset(&mut self) {
        self.audio_data.fill(0.0);
''', '''    pub fn reset(&mut self) {
        // nothing to clear if nothing was written
        if self.audio_data_index > 0 {
            self.audio_data.fill(0.0);
        }
''')],
 'reset() when the ring buffer is exactly full (its write position is back at 0), then a window before it is full again',
 'the ring buffer survives reset() and is measured as audio',
 '''
fn main() {
    let mut e = EbuR128::new(1, 8000, Mode::S).unwrap();
    e.add_frames_f64(&scaled(1, 24_000, 0.5)).unwrap();
    e.reset();
    assert_eq!(e.loudness_shortterm().unwrap(), -f64::INFINITY);
}
''')

bug('c08-prev-true-peak-overall', 'C08', [
 (EB, '''        let sample_peak = self.filter.sample_peak();
        let true_peak = self.filter.true_peak();

        if sample_peak''', '''        let sample_peak = &self.sample_peak;
        let true_peak = self.filter.true_peak();

        if sample_peak''')],
 'prev_true_peak with SAMPLE_PEAK and TRUE_PEAK set, after a quieter call',
 'prev_true_peak never falls below the overall sample peak',
 '''
fn main() {
    let mut e = EbuR128::new(1, 48_000, Mode::SAMPLE_PEAK | Mode::TRUE_PEAK).unwrap();
    e.add_frames_f64(&scaled(1, 100, 0.9)).unwrap();
    e.add_frames_f64(&[0.0; 100]).unwrap();
    e.add_frames_f64(&scaled(2, 100, 0.1)).unwrap();
    assert!(e.prev_true_peak(0).unwrap() < 0.3);
}
''')


bug('c05-u16-counts', 'C05', [
 (HI, '''pub struct Histogram(Box<[u64; 1000]>);''', '''pub struct Histogram(Box<[u16; 1000]>);'''),
 (HI, '''        self.0[idx] += 1;''', '''        self.0[idx] = self.0[idx].saturating_add(1);'''),
 (HI, '''        let mut above_thresh_counter = 0;
        let mut relative_threshold = 0.0;

        for (count, energy) in Iterator::zip(self.0.iter(), HISTOGRAM_ENERGIES.iter()) {
            relative_threshold += *count as f64 * *energy;
            above_thresh_counter += *count;
        }
''', '''        let mut above_thresh_counter = 0u64;
        let mut relative_threshold = 0.0;

        for (count, energy) in Iterator::zip(self.0.iter(), HISTOGRAM_ENERGIES.iter()) {
            relative_threshold += *count as f64 * *energy;
            above_thresh_counter += u64::from(*count);
        }
'''),
 (HI, '''                            (*count, loudness)''', '''                            (u64::from(*count), loudness)'''),
 (HI, '''                let mut combined;

                let combined = if s.len() == 1 {
                    &*h.0
                } else {
                    combined = [0; 1000];
''', '''                let mut combined = [0u64; 1000];

                let combined = if s.len() == 1 {
                    for (i, o) in Iterator::zip(h.0.iter(), combined.iter_mut()) {
                        *o = u64::from(*i);
                    }
                    &combined
                } else {
'''),
 (HI, '''                                    *o += *i;''', '''                                    *o += u64::from(*i);'''),
],
 'more than 65535 blocks (1.8 hours) of about the same level with Mode::HISTOGRAM',
 'the histogram bins saturate: the loud blocks of a long programme no longer count',
 '''
fn main() {
    let mut e = EbuR128::new(1, 8000, Mode::I | Mode::HISTOGRAM).unwrap();
    let tone: Vec<f64> = (0..480_000).map(|i| if i % 4 < 2 { 0.5 } else { -0.5 }).collect();
    for _ in 0..120 {
        e.add_frames_f64(&tone).unwrap();
    }
    let (n, _) = e.gating_block_count_and_energy().unwrap();
    println!("{} blocks", n);
    assert_eq!(n, 120 * 600 - 3);
}
''')

bug('c03-gate-without-offset', 'C03', [
 (HI, '''        if energy < HISTOGRAM_BOUNDARIES[0] {
            return;
        }

        match self {''', '''        // -70 dB
        if energy < 1e-7 {
            return;
        }

        match self {''')],
 'blocks between -70.69 and -70 LUFS',
 'the absolute gate is at -70.69 LUFS: blocks just below -70 LUFS count',
 '''
fn main() {
    let mut e = EbuR128::new(1, 48_000, Mode::I).unwrap();
    let a: Vec<f64> = (0..96_000)
        .map(|i| (i as f64 / 48.0 * 2.0 * std::f64::consts::PI).sin() * 4.3e-4)
        .collect();
    e.add_frames_f64(&a).unwrap();
    let s = e.loudness_momentary().unwrap();
    println!("{}", s);
    assert!(s < -70.05 && s > -70.6);
    assert_eq!(e.loudness_global().unwrap(), -f64::INFINITY);
}
''')

bug('c10-rate-change-clears-peaks', 'C10', [
 (EB, '''            self.channel_map = default_channel_map(channels).into_boxed_slice();
            self.sample_peak = vec![0.0; channels as usize].into_boxed_slice();
            self.true_peak = vec![0.0; channels as usize].into_boxed_slice();
        }
''', '''            self.channel_map = default_channel_map(channels).into_boxed_slice();
        }
        self.sample_peak = vec![0.0; channels as usize].into_boxed_slice();
        self.true_peak = vec![0.0; channels as usize].into_boxed_slice();
''')],
 'change_parameters with another rate but the same channel count in the middle of a programme',
 'the peaks before a change of the rate are forgotten',
 '''
fn main() {
    let mut e = EbuR128::new(1, 48_000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_f64(&[0.1, 0.9, -0.2]).unwrap();
    e.change_parameters(1, 44_100).unwrap();
    e.add_frames_f64(&[0.1, 0.3, -0.2]).unwrap();
    near("peak", e.sample_peak(0).unwrap(), 0.9, 0.0);
}
''')

bug('c15-ragged-longer', 'C15', [
 (UT, '''        if data.iter().any(|d| data[0].len() != d.len()) {''', '''        if data.iter().any(|d| data[0].len() > d.len()) {''')],
 'planar input whose later channels are longer than the first',
 'ragged planar input is accepted and its end silently ignored',
 '''
fn main() {
    let mut e = EbuR128::new(2, 48_000, Mode::SAMPLE_PEAK).unwrap();
    assert!(e.add_frames_planar_f64(&[&[0.1, 0.2], &[0.1, 0.2, 0.9]]).is_err());
    assert!(e.add_frames_planar_f64(&[&[0.1, 0.2, 0.9], &[0.1, 0.2]]).is_err());
    near("peak", e.sample_peak(1).unwrap(), 0.0, 0.0);
}
''')

bug('c02-planar-frame-start', 'C02', [
 (UT, '''        for f in self.start..self.end {
            func(F::from_fn(|c| self.data[c][f]));
        }''', '''        for f in 0..self.frames() {
            func(F::from_fn(|c| self.data[c][f]));
        }''')],
 'planar input with 1, 2, 4, 6 or 8 channels, mode TRUE_PEAK and a call that spans a block boundary',
 'after every block the interpolator is fed with the start of the call again: true peaks differ from interleaved input',
 '''
fn main() {
    let mut a = scaled(5, 1000, 0.1);
    a[700..704].copy_from_slice(&[0.9, 0.9, -0.9, -0.9]);
    let mut e = EbuR128::new(1, 1000, Mode::TRUE_PEAK).unwrap();
    let mut f = EbuR128::new(1, 1000, Mode::TRUE_PEAK).unwrap();
    e.add_frames_planar_f64(&[&a]).unwrap();
    f.add_frames_f64(&a).unwrap();
    near("true peaks", e.true_peak(0).unwrap(), f.true_peak(0).unwrap(), 1e-6);
}
''')

bug('c11-range-limit', 'C11', [
 (EB, '''            .set_max_size(self.history / 3000);''', '''            .set_max_size(self.history / 1000);''')],
 'set_max_history and mode LRA, with more audio than the limit',
 'the loudness range covers three times the history that was asked for (there is a 3 s block per second, but each stands for 3 s of history)',
 '''
fn main() {
    let mut e = EbuR128::new(1, 8000, Mode::LRA).unwrap();
    e.set_max_history(9000).unwrap();
    for i in 0..20 {
        e.add_frames_f64(&scaled(7, 8000, if i < 14 { 0.2 } else { 0.6 })).unwrap();
    }
    // the limit is 3 blocks of 3 s, and they are all loud
    let r = e.loudness_range().unwrap();
    println!("range {}", r);
    assert!(r < 0.5);
}
''')

bug('c26-noise-floor', 'C26', [
 (FI, '''        sum /= frames_per_block as f64;

        sum''', '''        sum /= frames_per_block as f64;

        // below -120 dB there is only noise
        if sum < 1e-12 {
            sum = 0.0;
        }

        sum''')],
 'audio below -120 LUFS (the momentary loudness of the noise floor of 24-bit audio)',
 'very quiet audio measures as digital silence',
 '''
fn main() {
    let a: Vec<f64> = (0..48_000).map(|i| (i as f64 / 7.6).sin() * 2e-7).collect();
    let loudness = |g: f64| {
        let mut e = EbuR128::new(1, 48_000, Mode::M).unwrap();
        let a: Vec<f64> = a.iter().map(|x| x * g).collect();
        e.add_frames_f64(&a).unwrap();
        e.loudness_momentary().unwrap()
    };
    near("-40 dB", loudness(1.0), loudness(100.0) - 40.0, 1e-3);
}
''')

bug('c26-overload', 'C26', [
 (FI, '''            match channel {
                Channel::LeftSurround''', '''            // No audio is louder than a square wave 40 dB above full scale
            if channel_sum.is_finite() {
                channel_sum = f64::min(channel_sum, 1e4 * frames_per_block as f64);
            }

            match channel {
                Channel::LeftSurround''')],
 'float audio more than 40 dB above full scale (a wrong gain, integer samples converted without scaling)',
 'the loudness of overloaded audio is limited: normalising it leaves it too loud',
 '''
fn main() {
    let a: Vec<f64> = (0..48_000).map(|i| (i as f64 / 7.6).sin() * 2000.0).collect();
    let loudness = |g: f64| {
        let mut e = EbuR128::new(1, 48_000, Mode::M).unwrap();
        let a: Vec<f64> = a.iter().map(|x| x * g).collect();
        e.add_frames_f64(&a).unwrap();
        e.loudness_momentary().unwrap()
    };
    near("-60 dB", loudness(1e-3), loudness(1.0) - 60.0, 1e-3);
}
''')
