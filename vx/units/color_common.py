"""src/color_transform: shared parts of the units for C09, C10 and C11."""
from extract import Unit, Fn
F = 'src/color_transform/mod.rs'
PRE = r'''
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::PartialEqSpec;
pub assume_specification[ <i16 as core::convert::From<u8>>::from ](x: u8) -> (r: i16) ensures r == x;
// ASSUMED: num_traits::NumCast::from of an i16 for the sample type is a function `num` of it
pub trait NumCast: Sized {
    spec fn num(x: i16) -> Option<Self>;
    fn from(x: i16) -> (r: Option<Self>)
        ensures r == Self::num(x);
}
/// value of a sample
pub open spec fn val<T: Into<i16>>(x: T) -> i16 { <T as IntoSpec<i16>>::into_spec(x) }
pub open spec fn vals_ok<T: Into<i16>>() -> bool { <T as IntoSpec<i16>>::obeys_into_spec() }
/// 0..=255 can be converted to a sample
pub open spec fn num_ok<T: NumCast>() -> bool { forall|x: i16| 0 <= x <= 255 ==> (#[trigger] T::num(x)) is Some }
pub open spec fn clamp(x: int) -> i16 { if x < 0 { 0 } else if x > 255 { 255 } else { x as i16 } }
pub open spec fn unboost<T: NumCast>(x: i16, boost: i16) -> T { T::num(clamp(tdiv(x as int, boost as int)))->0 }
pub open spec fn layer_of(c: int, channels: int, cs: int) -> int { (c / channels) * cs * channels + c % channels }
'''
CUT = Fn('cut_with_u8', 'r', '    ensures r == clamp(value as int)', subst=[(r'<T>\(', '(', 1), (r'where\s+T:[^{]*?(?=\n\s*ensures)', '', 1), (r'\bT\b', 'i16', 1)])
LAYER = Fn('get_layer', 'r', '''    requires channels > 0, layer_of(channel as int, channels as int, channel_size as int) <= usize::MAX, channel_size <= isize::MAX,
    ensures r == layer_of(channel as int, channels as int, channel_size as int)''', entry='''
    proof {
        let q = channel as int / channels as int; let s = channel_size as int; let n = channels as int;
        assert(q >= 0) by (nonlinear_arith) requires q == channel as int / channels as int, channels > 0;
        assert(0 <= q * s <= q * s * n) by (nonlinear_arith) requires q >= 0, s >= 0, n >= 1;
    }''')
