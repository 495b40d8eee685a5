//! The element type of all channels: an integer with a size in bits.
use dam::types::DAMType;

#[derive(Clone, Copy, Debug)]
pub struct W {
    pub v: i64,
    pub bits: u32,
}
impl W {
    pub fn new(v: i64) -> W {
        W { v, bits: 64 }
    }
}
impl Default for W {
    fn default() -> W {
        W::new(0)
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        self.v == o.v
    }
}
impl DAMType for W {
    fn dam_size(&self) -> usize {
        self.bits as usize
    }
}
impl From<i32> for W {
    fn from(x: i32) -> W {
        W::new(x as i64)
    }
}
impl TryFrom<W> for i32 {
    type Error = String;
    fn try_from(w: W) -> Result<i32, String> {
        i32::try_from(w.v).map_err(|e| e.to_string())
    }
}
impl From<W> for usize {
    fn from(w: W) -> usize {
        w.v as usize
    }
}
macro_rules! op {
    ($tr:ident, $f:ident, $e:expr) => {
        impl std::ops::$tr for W {
            type Output = W;
            fn $f(self, o: W) -> W {
                let f: fn(i64, i64) -> i64 = $e;
                W { v: f(self.v, o.v), bits: self.bits }
            }
        }
    };
}
op!(Add, add, |a, b| a.wrapping_add(b));
op!(Sub, sub, |a, b| a.wrapping_sub(b));
op!(Mul, mul, |a, b| a.wrapping_mul(b));
op!(Div, div, |a, b| a / b);
op!(Rem, rem, |a, b| a % b);
impl num::Zero for W {
    fn zero() -> W {
        W::new(0)
    }
    fn is_zero(&self) -> bool {
        self.v == 0
    }
}
impl num::One for W {
    fn one() -> W {
        W::new(1)
    }
}
impl num::Num for W {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<W, Self::FromStrRadixErr> {
        i64::from_str_radix(s, r).map(W::new)
    }
}
