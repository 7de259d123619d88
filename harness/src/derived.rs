//! A family of derived structs covering every supported field type, in several
//! orders, nestings and key shapes. Panics raised here come from generated code.

use std::sync::OnceLock;

use stacks_rs::clarity::Tuple;
use stacks_rs::derive::{Error, FromTuple};

/// Supported field types.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum F {
    I,
    U,
    B,
    S,
    Buf,
    VecS,
    OptI,
    OptU,
    OptS,
    RespI,
    RespU,
    T(fn() -> Vec<Spec>),
}

#[derive(Debug, Clone, Copy)]
pub struct Spec {
    pub key: &'static str,
    pub f: F,
}

/// What a field holds after the conversion.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Out {
    I(i128),
    U(u128),
    B(bool),
    S(String),
    Buf(Vec<u8>),
    VecS(Vec<String>),
    OptI(Option<i128>),
    OptU(Option<u128>),
    OptS(Option<String>),
    T(Vec<Out>),
}

macro_rules! outs {
    ($($t:ty => $v:ident),*) => { $(impl From<$t> for Out { fn from(x: $t) -> Out { Out::$v(x) } })* };
}
outs!(i128 => I, u128 => U, bool => B, String => S, Vec<u8> => Buf, Vec<String> => VecS,
      Option<i128> => OptI, Option<u128> => OptU, Option<String> => OptS);

pub trait Probe: Sized {
    fn spec() -> Vec<Spec>;
    fn out(self) -> Vec<Out>;
}

macro_rules! probe {
    ($n:ident { $($f:ident : $k:tt $key:tt),* $(,)? }) => {
        impl Probe for $n {
            fn spec() -> Vec<Spec> {
                vec![$(Spec { key: $key, f: probe!(@f $k) }),*]
            }
            fn out(self) -> Vec<Out> {
                vec![$(self.$f.into()),*]
            }
        }
        impl From<$n> for Out {
            fn from(x: $n) -> Out {
                Out::T(x.out())
            }
        }
    };
    (@f ($t:ident)) => { F::T($t::spec) };
    (@f $k:ident) => { F::$k };
}

#[derive(FromTuple, Debug)]
pub struct Ints {
    #[stacks(key = "a")]
    pub a: i128,
    #[stacks(key = "b")]
    pub b: u128,
    #[stacks(key = "a-b")]
    pub c: i128,
    #[stacks(key = "ab")]
    pub d: u128,
}
probe!(Ints { a: I "a", b: U "b", c: I "a-b", d: U "ab" });

#[derive(FromTuple, Debug)]
pub struct OneInt {
    #[stacks(key = "value")]
    pub v: i128,
}
probe!(OneInt { v: I "value" });

#[derive(FromTuple, Debug)]
pub struct OneUint {
    #[stacks(key = "value", response = false)]
    pub v: u128,
}
probe!(OneUint { v: U "value" });

#[derive(FromTuple, Debug)]
pub struct OneBool {
    #[stacks(key = "is-ok")]
    pub v: bool,
}
probe!(OneBool { v: B "is-ok" });

#[derive(FromTuple, Debug)]
pub struct OneText {
    #[stacks(key = "text")]
    pub v: String,
}
probe!(OneText { v: S "text" });

#[derive(FromTuple, Debug)]
pub struct OneBuf {
    #[stacks(key = "buff")]
    pub v: std::vec::Vec<u8>,
}
probe!(OneBuf { v: Buf "buff" });

#[derive(FromTuple, Debug)]
pub struct OneList {
    #[stacks(key = "list")]
    pub v: Vec<String>,
}
probe!(OneList { v: VecS "list" });

#[derive(FromTuple, Debug)]
pub struct Opts {
    #[stacks(key = "i")]
    pub i: Option<i128>,
    #[stacks(key = "u")]
    pub u: Option<u128>,
    #[stacks(key = "s")]
    pub s: Option<String>,
}
probe!(Opts { i: OptI "i", u: OptU "u", s: OptS "s" });

#[derive(FromTuple, Debug)]
pub struct OptsAgain {
    #[stacks(key = "some")]
    pub s: std::option::Option<String>,
    #[stacks(key = "none")]
    pub u: Option<u128>,
    #[stacks(key = "ok")]
    pub i: Option<i128>,
}
probe!(OptsAgain { s: OptS "some", u: OptU "none", i: OptI "ok" });

#[derive(FromTuple, Debug)]
pub struct Resps {
    #[stacks(key = "ri", response)]
    pub i: i128,
    #[stacks(key = "ru", response)]
    pub u: u128,
    #[stacks(key = "r", response = true)]
    pub v: u128,
}
probe!(Resps { i: RespI "ri", u: RespU "ru", v: RespU "r" });

/// Keys that look alike, are empty, long, or not ASCII.
#[derive(FromTuple, Debug)]
pub struct Odd {
    #[stacks(key = "")]
    pub a: u128,
    #[stacks(key = "Value")]
    pub b: u128,
    #[stacks(key = "value")]
    pub c: u128,
    #[stacks(key = "value ")]
    pub d: u128,
    #[stacks(key = "valu")]
    pub e: u128,
    #[stacks(key = "värde")]
    pub f: u128,
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    pub g: u128,
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    pub h: u128,
}
probe!(Odd {
    a: U "", b: U "Value", c: U "value", d: U "value ", e: U "valu", f: U "värde",
    g: U "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk",
    h: U "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk",
});

/// Two fields fed by the same key, and field names that are other fields' keys.
#[derive(FromTuple, Debug)]
pub struct Shared {
    #[stacks(key = "y")]
    pub x: i128,
    #[stacks(key = "x")]
    pub y: i128,
    #[stacks(key = "x")]
    pub z: String,
    #[stacks(key = "y")]
    pub tuple: i128,
    #[stacks(key = "value")]
    pub value: bool,
}
probe!(Shared { x: I "y", y: I "x", z: S "x", tuple: I "y", value: B "value" });

#[derive(FromTuple, Debug)]
pub struct All {
    #[stacks(key = "opt-text")]
    pub os: Option<String>,
    #[stacks(key = "list")]
    pub list: Vec<String>,
    #[stacks(key = "int")]
    pub i: i128,
    #[stacks(key = "resp-uint", response)]
    pub ru: u128,
    #[stacks(key = "flag")]
    pub b: bool,
    #[stacks(key = "opt-uint")]
    pub ou: Option<u128>,
    #[stacks(key = "text")]
    pub s: String,
    #[stacks(key = "uint")]
    pub u: u128,
    #[stacks(key = "resp-int", response)]
    pub ri: i128,
    #[stacks(key = "buff")]
    pub buf: Vec<u8>,
    #[stacks(key = "opt-int")]
    pub oi: Option<i128>,
    #[stacks(key = "inner")]
    pub t: Small,
}
probe!(All {
    os: OptS "opt-text", list: VecS "list", i: I "int", ru: RespU "resp-uint", b: B "flag",
    ou: OptU "opt-uint", s: S "text", u: U "uint", ri: RespI "resp-int", buf: Buf "buff",
    oi: OptI "opt-int", t: (Small) "inner",
});

#[derive(FromTuple, Debug)]
pub struct Small {
    #[stacks(key = "text")]
    pub s: String,
    #[stacks(key = "int")]
    pub i: i128,
}
probe!(Small { s: S "text", i: I "int" });

#[derive(FromTuple, Debug)]
pub struct Middle {
    #[stacks(key = "left")]
    pub l: Small,
    #[stacks(key = "right")]
    pub r: Small,
    #[stacks(key = "int")]
    pub i: Option<i128>,
}
probe!(Middle { l: (Small) "left", r: (Small) "right", i: OptI "int" });

#[derive(FromTuple, Debug)]
pub struct Outer {
    #[stacks(key = "middle")]
    pub m: Middle,
    #[stacks(key = "left")]
    pub l: Middle,
    #[stacks(key = "opts")]
    pub o: Opts,
    #[stacks(key = "resps")]
    pub r: Resps,
    #[stacks(key = "list")]
    pub v: Vec<String>,
}
probe!(Outer { m: (Middle) "middle", l: (Middle) "left", o: (Opts) "opts", r: (Resps) "resps", v: VecS "list" });

/// A generic wrapper around any other derived struct.
#[derive(FromTuple, Debug)]
pub struct Wrap<T>
where
    T: TryFrom<Tuple, Error = Error>,
{
    #[stacks(key = "inner")]
    pub t: T,
    #[stacks(key = "flag")]
    pub b: bool,
}

type WrapSmall = Wrap<Small>;
probe!(WrapSmall { t: (Small) "inner", b: B "flag" });
type WrapOpts = Wrap<Opts>;
probe!(WrapOpts { t: (Opts) "inner", b: B "flag" });

fn conv<T: Probe + TryFrom<Tuple, Error = Error>>(t: Tuple) -> Result<Vec<Out>, Error> {
    T::try_from(t).map(Probe::out)
}

pub type Conv = fn(Tuple) -> Result<Vec<Out>, Error>;

/// Every struct of the family: name, fields, conversion.
pub fn family() -> &'static [(&'static str, fn() -> Vec<Spec>, Conv)] {
    static ALL: OnceLock<Vec<(&'static str, fn() -> Vec<Spec>, Conv)>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = by_hand().to_vec();
        v.extend(generated());
        v
    })
}

/// How many of them come first that were written by hand.
pub const BY_HAND: usize = 18;

fn by_hand() -> [(&'static str, fn() -> Vec<Spec>, Conv); BY_HAND] {
    [
        ("Ints", Ints::spec, conv::<Ints>),
        ("OneInt", OneInt::spec, conv::<OneInt>),
        ("OneUint", OneUint::spec, conv::<OneUint>),
        ("OneBool", OneBool::spec, conv::<OneBool>),
        ("OneText", OneText::spec, conv::<OneText>),
        ("OneBuf", OneBuf::spec, conv::<OneBuf>),
        ("OneList", OneList::spec, conv::<OneList>),
        ("Opts", Opts::spec, conv::<Opts>),
        ("OptsAgain", OptsAgain::spec, conv::<OptsAgain>),
        ("Resps", Resps::spec, conv::<Resps>),
        ("Odd", Odd::spec, conv::<Odd>),
        ("Shared", Shared::spec, conv::<Shared>),
        ("All", All::spec, conv::<All>),
        ("Small", Small::spec, conv::<Small>),
        ("Middle", Middle::spec, conv::<Middle>),
        ("Outer", Outer::spec, conv::<Outer>),
        ("Wrap<Small>", WrapSmall::spec, conv::<WrapSmall>),
        ("Wrap<Opts>", WrapOpts::spec, conv::<WrapOpts>),
    ]
}

include!(concat!(env!("OUT_DIR"), "/structs.rs"));
