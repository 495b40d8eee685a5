//! Sizes, indices and placeholders.
use dam::types::unevaluated::Unevaluated;
use dam::types::{DAMType, IndexLike, StaticallySized};
use ndarray::{ArrayD, Axis, Dimension, Ix0, Ix1, Ix2, Ix3, Ix4, IxDyn, ShapeBuilder, Slice};
use num::Num;
use serde_json::{json, Value};
use std::str::FromStr;

macro_rules! scalar {
    ($name:expr, $t:ident => $body:expr) => {
        match $name {
            "bool" => { type $t = bool; $body }
            "u8" => { type $t = u8; $body }
            "i8" => { type $t = i8; $body }
            "u16" => { type $t = u16; $body }
            "i16" => { type $t = i16; $body }
            "u32" => { type $t = u32; $body }
            "i32" => { type $t = i32; $body }
            "u64" => { type $t = u64; $body }
            "i64" => { type $t = i64; $body }
            "f32" => { type $t = f32; $body }
            "f64" => { type $t = f64; $body }
            "usize" => { type $t = usize; $body }
            "unit" => { type $t = (); $body }
            x => panic!("no scalar {x}"),
        }
    };
}
macro_rules! few {
    ($name:expr, $t:ident => $body:expr) => {
        match $name {
            "bool" => { type $t = bool; $body }
            "u16" => { type $t = u16; $body }
            "f64" => { type $t = f64; $body }
            "unit" => { type $t = (); $body }
            x => panic!("no scalar {x}"),
        }
    };
}

fn of<T>(shapes: &[Vec<usize>]) -> Value
where
    T: StaticallySized + Default + Clone + PartialEq + std::fmt::Debug + Send + Sync,
{
    let arrays: Vec<i64> = shapes.iter().map(|s| array::<T>(s)).collect();
    json!({"size": T::SIZE, "value": T::default().dam_size(), "uneval": Unevaluated::<T>::SIZE, "arrays": arrays})
}

/// The size of an array of this shape; -1 if it depends on how the array is stored.
fn array<T>(s: &[usize]) -> i64
where
    T: StaticallySized + Default + Clone + PartialEq + std::fmt::Debug + Send + Sync,
{
    let plain = ArrayD::<T>::from_elem(IxDyn(s), T::default());
    let size = plain.dam_size();
    let mut all = vec![ArrayD::<T>::from_elem(IxDyn(s).f(), T::default()).dam_size(), plain.clone().reversed_axes().dam_size()];
    // every second element of one twice as long in every direction, backwards
    let double: Vec<usize> = s.iter().map(|n| 2 * n).collect();
    let mut part = ArrayD::<T>::from_elem(IxDyn(&double), T::default());
    for i in 0..s.len() {
        part.slice_axis_inplace(Axis(i), Slice::new(0, None, -2));
    }
    assert_eq!(part.shape(), s);
    all.push(part.dam_size());
    fn fixed<T, D>(x: &ArrayD<T>) -> usize
    where
        D: Dimension,
        T: StaticallySized + Default + Clone + PartialEq + std::fmt::Debug + Send + Sync,
    {
        x.clone().into_dimensionality::<D>().unwrap().dam_size()
    }
    all.extend(match s.len() {
        0 => Some(fixed::<T, Ix0>(&part)),
        1 => Some(fixed::<T, Ix1>(&part)),
        2 => Some(fixed::<T, Ix2>(&part)),
        3 => Some(fixed::<T, Ix3>(&part)),
        4 => Some(fixed::<T, Ix4>(&part)),
        _ => None,
    });
    if all.iter().all(|x| *x == size) { size as i64 } else { -1 }
}

pub fn size(c: &Value) -> Value {
    let t: Vec<String> = serde_json::from_value(c["type"].clone()).unwrap();
    let s: Vec<Vec<usize>> = serde_json::from_value(c["shapes"].clone()).unwrap();
    match t.len() {
        1 => scalar!(t[0].as_str(), A => of::<A>(&s)),
        2 => scalar!(t[0].as_str(), A => scalar!(t[1].as_str(), B => of::<(A, B)>(&s))),
        _ => few!(t[0].as_str(), A => few!(t[1].as_str(), B => few!(t[2].as_str(), C => {
            let l = of::<((A, B), C)>(&s);
            let r = of::<(A, (B, C))>(&s);
            if l == r { l } else { json!({"size": -1, "value": -1, "uneval": -1, "arrays": []}) }
        }))),
    }
}

fn text(c: &Value) -> (String, u32) {
    let mut s = String::from(if c["neg"].as_bool().unwrap() { "-" } else { "" });
    for d in c["digits"].as_array().unwrap() {
        s.push(char::from_digit(d.as_u64().unwrap() as u32, 36).unwrap());
    }
    (s, c["radix"].as_u64().unwrap() as u32)
}

pub fn parse(c: &Value) -> Value {
    let (s, r) = text(c);
    fn p<T: Num + FromStr>(s: &str, r: u32) -> Value
    where
        Unevaluated<T>: Num,
    {
        json!({"ok": Unevaluated::<T>::from_str_radix(s, r).is_ok(), "str": Unevaluated::<T>::from_str(s).is_ok()})
    }
    match c["type"].as_str().unwrap() {
        "u8" => p::<u8>(&s, r),
        "i8" => p::<i8>(&s, r),
        "u16" => p::<u16>(&s, r),
        _ => p::<i16>(&s, r),
    }
}

pub fn index(c: &Value) -> usize {
    let n = ((c["v"][0].as_u64().unwrap()) << 40) + c["v"][1].as_u64().unwrap();
    match c["type"].as_str().unwrap() {
        "u8" => (n as u8).to_usize(),
        "u16" => (n as u16).to_usize(),
        _ => (n as usize).to_usize(),
    }
}

/// What placeholders can and cannot do.
pub fn ops() -> Value {
    type U = Unevaluated<i32>;
    fn refused<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> bool {
        std::panic::catch_unwind(f).is_err()
    }
    let u = U::default;
    // that these are placeholders again is what their types say
    let all: Vec<U> = vec![
        u() + u(), u() - u(), u() * u(), u() / u(), u() % u(), u() + 1, u() - 1, u() * 2, u() / 0, u() % 0,
        U::from(7), num::one(), num::zero(), { let mut x = u(); x += u(); x },
    ];
    json!({"ops": [
        all.iter().all(|x| x.dam_size() == 32),
        refused(|| U::default() == U::default()),
        refused(|| num::Zero::is_zero(&U::default())),
        u().partial_cmp(&u()).is_none(),
    ]})
}
