//! The system under test behind one small trait: the Rust API and the C API.
use ebur128::{Channel, EbuR128, Mode};
use std::os::raw::c_ulong;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Err {
    NoMem,
    InvalidMode,
    InvalidChannel,
    NoChange,
    Other(i32),
}
pub type R<T = ()> = Result<T, Err>;

pub fn conv(e: ebur128::Error) -> Err {
    match e {
        ebur128::Error::NoMem => Err::NoMem,
        ebur128::Error::InvalidMode => Err::InvalidMode,
        ebur128::Error::InvalidChannelIndex => Err::InvalidChannel,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    I16,
    I32,
    F32,
    F64,
    PI16,
    PI32,
    PF32,
    PF64,
}
pub const ENTRIES: [Entry; 8] = [
    Entry::I16,
    Entry::I32,
    Entry::F32,
    Entry::F64,
    Entry::PI16,
    Entry::PI32,
    Entry::PF32,
    Entry::PF64,
];

/// Interleaved audio. `Grid` samples are exact in every sample format.
#[derive(Clone, Debug, PartialEq)]
pub enum Buf {
    Grid(usize, Vec<i16>),
    F64(usize, Vec<f64>),
    F32(usize, Vec<f32>),
    I32(usize, Vec<i32>),
}

impl Buf {
    pub fn channels(&self) -> usize {
        match self {
            Buf::Grid(c, _) | Buf::F64(c, _) | Buf::F32(c, _) | Buf::I32(c, _) => *c,
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Buf::Grid(_, v) => v.len(),
            Buf::F64(_, v) => v.len(),
            Buf::F32(_, v) => v.len(),
            Buf::I32(_, v) => v.len(),
        }
    }
    pub fn frames(&self) -> usize {
        self.len() / self.channels().max(1)
    }
    /// Value of sample `i` (interleaved index) relative to full scale.
    pub fn at(&self, i: usize) -> f64 {
        match self {
            Buf::Grid(_, v) => v[i] as f64 / 32768.0,
            Buf::F64(_, v) => v[i],
            Buf::F32(_, v) => v[i] as f64,
            Buf::I32(_, v) => v[i] as f64 / 2147483648.0,
        }
    }
    pub fn slice(&self, from: usize, to: usize) -> Buf {
        let c = self.channels();
        let (a, b) = (from * c, to * c);
        match self {
            Buf::Grid(_, v) => Buf::Grid(c, v[a..b].to_vec()),
            Buf::F64(_, v) => Buf::F64(c, v[a..b].to_vec()),
            Buf::F32(_, v) => Buf::F32(c, v[a..b].to_vec()),
            Buf::I32(_, v) => Buf::I32(c, v[a..b].to_vec()),
        }
    }
    fn i16(&self) -> Vec<i16> {
        match self {
            Buf::Grid(_, v) => v.clone(),
            _ => panic!("HARNESS: not representable as i16"),
        }
    }
    fn i32(&self) -> Vec<i32> {
        match self {
            Buf::Grid(_, v) => v.iter().map(|&x| (x as i32) << 16).collect(),
            Buf::I32(_, v) => v.clone(),
            _ => panic!("HARNESS: not representable as i32"),
        }
    }
    fn f32(&self) -> Vec<f32> {
        match self {
            Buf::Grid(_, v) => v.iter().map(|&x| x as f32 / 32768.0).collect(),
            Buf::F32(_, v) => v.clone(),
            _ => panic!("HARNESS: not representable as f32"),
        }
    }
    fn f64(&self) -> Vec<f64> {
        match self {
            Buf::F64(_, v) => v.clone(),
            _ => (0..self.len()).map(|i| self.at(i)).collect(),
        }
    }
    /// Whether the buffer is exact in this entry point's format.
    pub fn fits(&self, e: Entry) -> bool {
        use Entry::*;
        match self {
            Buf::Grid(..) => true,
            Buf::F64(..) => matches!(e, F64 | PF64),
            Buf::F32(..) => matches!(e, F64 | PF64 | F32 | PF32),
            Buf::I32(..) => matches!(e, F64 | PF64 | I32 | PI32),
        }
    }
}

pub fn planar<T: Copy>(v: &[T], c: usize) -> Vec<Vec<T>> {
    (0..c).map(|k| v.iter().skip(k).step_by(c).copied().collect()).collect()
}

/// Operations every flavour of the analyser offers.
pub trait Sut {
    fn add(&mut self, e: Entry, b: &Buf) -> R;
    fn seed(&mut self, e: Entry, b: &Buf) -> R;
    fn set_channel(&mut self, c: u32, t: Channel) -> R;
    fn set_channel_map(&mut self, m: &[Channel]) -> R;
    fn change_parameters(&mut self, channels: u32, rate: u32) -> R;
    fn set_max_window(&mut self, w: u32) -> R;
    fn set_max_history(&mut self, h: u32) -> R;
    fn reset(&mut self);
    /// The Rust object, where there is one.
    fn get(&self) -> Option<&EbuR128>;
    fn global(&self) -> R<f64>;
    fn momentary(&self) -> R<f64>;
    fn shortterm(&self) -> R<f64>;
    fn window(&self, w: u32) -> R<f64>;
    fn range(&self) -> R<f64>;
    fn sample_peak(&self, c: u32) -> R<f64>;
    fn prev_sample_peak(&self, c: u32) -> R<f64>;
    fn true_peak(&self, c: u32) -> R<f64>;
    fn prev_true_peak(&self, c: u32) -> R<f64>;
    fn relative_threshold(&self) -> R<f64>;
}

/// Feeds a buffer through one of the 16 Rust entry points.
pub fn feed(s: &mut EbuR128, e: Entry, b: &Buf, seed: bool) -> R {
    let c = b.channels();
    macro_rules! pl {
        ($v:expr, $add:ident, $seed:ident) => {{
            let p = planar(&$v, c);
            let r: Vec<_> = p.iter().map(|x| &x[..]).collect();
            if seed {
                s.$seed(&r)
            } else {
                s.$add(&r)
            }
        }};
    }
    macro_rules! il {
        ($v:expr, $add:ident, $seed:ident) => {
            if seed {
                s.$seed($v)
            } else {
                s.$add($v)
            }
        };
    }
    match (e, b) {
        (Entry::I16, Buf::Grid(_, v)) => il!(v, add_frames_i16, seed_frames_i16),
        (Entry::F64, Buf::F64(_, v)) => il!(v, add_frames_f64, seed_frames_f64),
        (Entry::F32, Buf::F32(_, v)) => il!(v, add_frames_f32, seed_frames_f32),
        (Entry::I32, Buf::I32(_, v)) => il!(v, add_frames_i32, seed_frames_i32),
        (Entry::I16, b) => il!(&b.i16(), add_frames_i16, seed_frames_i16),
        (Entry::I32, b) => il!(&b.i32(), add_frames_i32, seed_frames_i32),
        (Entry::F32, b) => il!(&b.f32(), add_frames_f32, seed_frames_f32),
        (Entry::F64, b) => il!(&b.f64(), add_frames_f64, seed_frames_f64),
        (Entry::PI16, b) => pl!(b.i16(), add_frames_planar_i16, seed_frames_planar_i16),
        (Entry::PI32, b) => pl!(b.i32(), add_frames_planar_i32, seed_frames_planar_i32),
        (Entry::PF32, b) => pl!(b.f32(), add_frames_planar_f32, seed_frames_planar_f32),
        (Entry::PF64, b) => pl!(b.f64(), add_frames_planar_f64, seed_frames_planar_f64),
    }
    .map_err(conv)
}

impl Sut for EbuR128 {
    fn add(&mut self, e: Entry, b: &Buf) -> R {
        feed(self, e, b, false)
    }
    fn seed(&mut self, e: Entry, b: &Buf) -> R {
        feed(self, e, b, true)
    }
    fn set_channel(&mut self, c: u32, t: Channel) -> R {
        EbuR128::set_channel(self, c, t).map_err(conv)
    }
    fn set_channel_map(&mut self, m: &[Channel]) -> R {
        EbuR128::set_channel_map(self, m).map_err(conv)
    }
    fn change_parameters(&mut self, c: u32, r: u32) -> R {
        EbuR128::change_parameters(self, c, r).map_err(conv)
    }
    fn set_max_window(&mut self, w: u32) -> R {
        EbuR128::set_max_window(self, w).map_err(conv)
    }
    fn set_max_history(&mut self, h: u32) -> R {
        EbuR128::set_max_history(self, h).map_err(conv)
    }
    fn reset(&mut self) {
        EbuR128::reset(self)
    }
    fn get(&self) -> Option<&EbuR128> {
        Some(self)
    }
    fn global(&self) -> R<f64> {
        self.loudness_global().map_err(conv)
    }
    fn momentary(&self) -> R<f64> {
        self.loudness_momentary().map_err(conv)
    }
    fn shortterm(&self) -> R<f64> {
        self.loudness_shortterm().map_err(conv)
    }
    fn window(&self, w: u32) -> R<f64> {
        self.loudness_window(w).map_err(conv)
    }
    fn range(&self) -> R<f64> {
        self.loudness_range().map_err(conv)
    }
    fn sample_peak(&self, c: u32) -> R<f64> {
        EbuR128::sample_peak(self, c).map_err(conv)
    }
    fn prev_sample_peak(&self, c: u32) -> R<f64> {
        EbuR128::prev_sample_peak(self, c).map_err(conv)
    }
    fn true_peak(&self, c: u32) -> R<f64> {
        EbuR128::true_peak(self, c).map_err(conv)
    }
    fn prev_true_peak(&self, c: u32) -> R<f64> {
        EbuR128::prev_true_peak(self, c).map_err(conv)
    }
    fn relative_threshold(&self) -> R<f64> {
        EbuR128::relative_threshold(self).map_err(conv)
    }
}

/// `ebur128_state` (only C knows its layout).
#[repr(C)]
pub struct CState {
    _private: [u8; 0],
}

/// The C entry points, called from C through the declarations of the public header (c/shim.c).
pub mod c_api {
    pub use super::CState as State;
    use std::os::raw::{c_int, c_uint, c_ulong};
    extern "C" {
        #[link_name = "vk_get_version"]
        pub fn ebur128_get_version(a: *mut c_int, b: *mut c_int, c: *mut c_int);
        #[link_name = "vk_init"]
        pub fn ebur128_init(c: c_uint, r: c_ulong, m: c_int) -> *mut State;
        #[link_name = "vk_destroy"]
        pub fn ebur128_destroy(s: *mut *mut State);
        #[link_name = "vk_set_channel"]
        pub fn ebur128_set_channel(s: *mut State, c: c_uint, v: c_int) -> c_int;
        #[link_name = "vk_change_parameters"]
        pub fn ebur128_change_parameters(s: *mut State, c: c_uint, r: c_ulong) -> c_int;
        #[link_name = "vk_set_max_window"]
        pub fn ebur128_set_max_window(s: *mut State, w: c_ulong) -> c_int;
        #[link_name = "vk_set_max_history"]
        pub fn ebur128_set_max_history(s: *mut State, h: c_ulong) -> c_int;
        #[link_name = "vk_add_frames_short"]
        pub fn ebur128_add_frames_short(s: *mut State, d: *const i16, n: usize) -> c_int;
        #[link_name = "vk_add_frames_int"]
        pub fn ebur128_add_frames_int(s: *mut State, d: *const i32, n: usize) -> c_int;
        #[link_name = "vk_add_frames_float"]
        pub fn ebur128_add_frames_float(s: *mut State, d: *const f32, n: usize) -> c_int;
        #[link_name = "vk_add_frames_double"]
        pub fn ebur128_add_frames_double(s: *mut State, d: *const f64, n: usize) -> c_int;
        #[link_name = "vk_loudness_global"]
        pub fn ebur128_loudness_global(s: *mut State, o: *mut f64) -> c_int;
        #[link_name = "vk_loudness_global_multiple"]
        pub fn ebur128_loudness_global_multiple(s: *mut *mut State, n: usize, o: *mut f64) -> c_int;
        #[link_name = "vk_loudness_momentary"]
        pub fn ebur128_loudness_momentary(s: *mut State, o: *mut f64) -> c_int;
        #[link_name = "vk_loudness_shortterm"]
        pub fn ebur128_loudness_shortterm(s: *mut State, o: *mut f64) -> c_int;
        #[link_name = "vk_loudness_window"]
        pub fn ebur128_loudness_window(s: *mut State, w: c_ulong, o: *mut f64) -> c_int;
        #[link_name = "vk_loudness_range"]
        pub fn ebur128_loudness_range(s: *mut State, o: *mut f64) -> c_int;
        #[link_name = "vk_loudness_range_multiple"]
        pub fn ebur128_loudness_range_multiple(s: *mut *mut State, n: usize, o: *mut f64) -> c_int;
        #[link_name = "vk_sample_peak"]
        pub fn ebur128_sample_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
        #[link_name = "vk_prev_sample_peak"]
        pub fn ebur128_prev_sample_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
        #[link_name = "vk_true_peak"]
        pub fn ebur128_true_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
        #[link_name = "vk_prev_true_peak"]
        pub fn ebur128_prev_true_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
        #[link_name = "vk_relative_threshold"]
        pub fn ebur128_relative_threshold(s: *mut State, o: *mut f64) -> c_int;
        #[link_name = "vk_field_mode"]
        pub fn field_mode(s: *const State) -> c_int;
        #[link_name = "vk_field_channels"]
        pub fn field_channels(s: *const State) -> c_uint;
        #[link_name = "vk_field_samplerate"]
        pub fn field_samplerate(s: *const State) -> c_ulong;
        #[link_name = "vk_channels"]
        pub static CHANNELS: [c_int; 32];
        #[link_name = "vk_channel_aliases"]
        pub static CHANNEL_ALIASES: [c_int; 5];
        #[link_name = "vk_errors"]
        pub static ERRORS: [c_int; 5];
        #[link_name = "vk_modes"]
        pub static MODES: [c_int; 7];
        #[link_name = "vk_version"]
        pub static VERSION: [c_int; 3];
    }
}

/// An analyser driven through the C entry points.
pub struct CApi {
    pub st: *mut CState,
}

pub fn code(c: i32) -> R {
    match c {
        0 => Ok(()),
        1 => Result::Err(Err::NoMem),
        2 => Result::Err(Err::InvalidMode),
        3 => Result::Err(Err::InvalidChannel),
        4 => Result::Err(Err::NoChange),
        x => Result::Err(Err::Other(x)),
    }
}

pub const POISON: f64 = -123.456e77;

impl CApi {
    pub fn new(channels: u32, rate: c_ulong, mode: i32) -> Option<CApi> {
        let st = unsafe { c_api::ebur128_init(channels, rate, mode) };
        if st.is_null() {
            None
        } else {
            Some(CApi { st })
        }
    }
    pub fn raw(&self) -> *mut CState {
        self.st
    }
    fn out(&self, f: impl FnOnce(*mut f64) -> i32) -> R<f64> {
        let mut v = POISON;
        match code(f(&mut v)) {
            Ok(()) => Ok(v),
            Result::Err(e) => {
                assert!(v == POISON, "output written although error {:?} was returned", e);
                Result::Err(e)
            }
        }
    }
}

impl Drop for CApi {
    fn drop(&mut self) {
        unsafe {
            let mut p = self.raw();
            c_api::ebur128_destroy(&mut p);
            if !std::thread::panicking() {
                assert!(p.is_null(), "ebur128_destroy left a dangling pointer");
            }
        }
    }
}

use c_api as c;
impl Sut for CApi {
    fn add(&mut self, e: Entry, b: &Buf) -> R {
        let n = b.frames();
        code(unsafe {
            match e {
                Entry::I16 | Entry::PI16 => c::ebur128_add_frames_short(self.raw(), b.i16().as_ptr(), n),
                Entry::I32 | Entry::PI32 => c::ebur128_add_frames_int(self.raw(), b.i32().as_ptr(), n),
                Entry::F32 | Entry::PF32 => c::ebur128_add_frames_float(self.raw(), b.f32().as_ptr(), n),
                Entry::F64 | Entry::PF64 => c::ebur128_add_frames_double(self.raw(), b.f64().as_ptr(), n),
            }
        })
    }
    fn seed(&mut self, e: Entry, b: &Buf) -> R {
        let _ = (e, b);
        panic!("HARNESS: not part of the C API")
    }
    fn set_channel(&mut self, n: u32, t: Channel) -> R {
        code(unsafe { c::ebur128_set_channel(self.raw(), n, t as i32) })
    }
    fn set_channel_map(&mut self, m: &[Channel]) -> R {
        for (i, t) in m.iter().enumerate() {
            self.set_channel(i as u32, *t)?;
        }
        Ok(())
    }
    fn change_parameters(&mut self, ch: u32, r: u32) -> R {
        code(unsafe { c::ebur128_change_parameters(self.raw(), ch, r as c_ulong) })
    }
    fn set_max_window(&mut self, w: u32) -> R {
        code(unsafe { c::ebur128_set_max_window(self.raw(), w as c_ulong) })
    }
    fn set_max_history(&mut self, h: u32) -> R {
        code(unsafe { c::ebur128_set_max_history(self.raw(), h as c_ulong) })
    }
    fn reset(&mut self) {
        panic!("HARNESS: not part of the C API")
    }
    fn get(&self) -> Option<&EbuR128> {
        None
    }
    fn global(&self) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_loudness_global(self.raw(), o) })
    }
    fn momentary(&self) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_loudness_momentary(self.raw(), o) })
    }
    fn shortterm(&self) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_loudness_shortterm(self.raw(), o) })
    }
    fn window(&self, w: u32) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_loudness_window(self.raw(), w as c_ulong, o) })
    }
    fn range(&self) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_loudness_range(self.raw(), o) })
    }
    fn sample_peak(&self, n: u32) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_sample_peak(self.raw(), n, o) })
    }
    fn prev_sample_peak(&self, n: u32) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_prev_sample_peak(self.raw(), n, o) })
    }
    fn true_peak(&self, n: u32) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_true_peak(self.raw(), n, o) })
    }
    fn prev_true_peak(&self, n: u32) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_prev_true_peak(self.raw(), n, o) })
    }
    fn relative_threshold(&self) -> R<f64> {
        self.out(|o| unsafe { c::ebur128_relative_threshold(self.raw(), o) })
    }
}

pub fn new(channels: u32, rate: u32, mode: Mode) -> R<EbuR128> {
    EbuR128::new(channels, rate, mode).map_err(conv)
}
