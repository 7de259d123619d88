//! Model of Clarity values: the oracle's own representation, serialization,
//! strict parser and literal, and the bridges to and from the library.

use stacks_rs::clarity as cl;
use stacks_rs::clarity::Clarity;

use crate::oracle::*;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum V {
    Int(i128),
    UInt(u128),
    Buf(Vec<u8>),
    True,
    False,
    Std(String),
    Con(String, String),
    Ok(Box<V>),
    Err(Box<V>),
    None,
    Some(Box<V>),
    List(Vec<V>),
    Tuple(Vec<(String, V)>),
    Ascii(String),
    Utf8(String),
    /// Not self-describing: length-prefixed name.
    Name(String),
    /// Not self-describing: function arguments.
    Args(Vec<V>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum K {
    Int,
    UInt,
    Buf,
    True,
    False,
    Std,
    Con,
    Ok,
    Err,
    None,
    Some,
    List,
    Tuple,
    Ascii,
    Utf8,
    Name,
    Args,
}

pub const STD_KINDS: [K; 15] = [
    K::Int,
    K::UInt,
    K::Buf,
    K::True,
    K::False,
    K::Std,
    K::Con,
    K::Ok,
    K::Err,
    K::None,
    K::Some,
    K::List,
    K::Tuple,
    K::Ascii,
    K::Utf8,
];

pub const ALL_KINDS: [K; 17] = [
    K::Int,
    K::UInt,
    K::Buf,
    K::True,
    K::False,
    K::Std,
    K::Con,
    K::Ok,
    K::Err,
    K::None,
    K::Some,
    K::List,
    K::Tuple,
    K::Ascii,
    K::Utf8,
    K::Name,
    K::Args,
];

impl K {
    /// SIP-005 type prefix.
    pub fn tag(self) -> u8 {
        match self {
            K::Int => 0x00,
            K::UInt => 0x01,
            K::Buf => 0x02,
            K::True => 0x03,
            K::False => 0x04,
            K::Std => 0x05,
            K::Con => 0x06,
            K::Ok => 0x07,
            K::Err => 0x08,
            K::None => 0x09,
            K::Some => 0x0a,
            K::List => 0x0b,
            K::Tuple => 0x0c,
            K::Ascii => 0x0d,
            K::Utf8 => 0x0e,
            K::Name | K::Args => 0xff,
        }
    }
}

fn name_bytes(s: &str) -> Option<Vec<u8>> {
    if s.len() > 128 {
        return None;
    }
    let mut v = vec![s.len() as u8];
    v.extend_from_slice(s.as_bytes());
    Some(v)
}

impl V {
    pub fn kind(&self) -> K {
        match self {
            V::Int(_) => K::Int,
            V::UInt(_) => K::UInt,
            V::Buf(_) => K::Buf,
            V::True => K::True,
            V::False => K::False,
            V::Std(_) => K::Std,
            V::Con(..) => K::Con,
            V::Ok(_) => K::Ok,
            V::Err(_) => K::Err,
            V::None => K::None,
            V::Some(_) => K::Some,
            V::List(_) => K::List,
            V::Tuple(_) => K::Tuple,
            V::Ascii(_) => K::Ascii,
            V::Utf8(_) => K::Utf8,
            V::Name(_) => K::Name,
            V::Args(_) => K::Args,
        }
    }

    /// SIP-005 serialization, or `None` if the value is outside the limits.
    pub fn encode(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        self.enc(&mut o)?;
        Some(o)
    }

    fn enc(&self, o: &mut Vec<u8>) -> Option<()> {
        let k = self.kind();
        if k != K::Name && k != K::Args {
            o.push(k.tag());
        }
        match self {
            V::Int(i) => o.extend_from_slice(&(*i as u128).to_be_bytes()),
            V::UInt(i) => {
                for s in (0..16).rev() {
                    o.push((i >> (8 * s)) as u8);
                }
            }
            V::Buf(b) => {
                o.extend_from_slice(&(b.len() as u32).to_be_bytes());
                o.extend_from_slice(b);
            }
            V::True | V::False | V::None => {}
            V::Std(a) => {
                let (v, h) = address_decode(a)?;
                o.push(v);
                o.extend_from_slice(&h);
            }
            V::Con(a, n) => {
                let (v, h) = address_decode(a)?;
                o.push(v);
                o.extend_from_slice(&h);
                o.extend(name_bytes(n)?);
            }
            V::Ok(x) | V::Err(x) | V::Some(x) => x.enc(o)?,
            V::List(xs) => {
                o.extend_from_slice(&(xs.len() as u32).to_be_bytes());
                for x in xs {
                    x.enc(o)?;
                }
            }
            V::Tuple(xs) => {
                o.extend_from_slice(&(xs.len() as u32).to_be_bytes());
                for (k, x) in xs {
                    o.extend(name_bytes(k)?);
                    x.enc(o)?;
                }
            }
            V::Ascii(s) => {
                if s.bytes().any(|b| b > 127) {
                    return None;
                }
                o.extend_from_slice(&(s.len() as u32).to_be_bytes());
                o.extend_from_slice(s.as_bytes());
            }
            V::Utf8(s) => {
                o.extend_from_slice(&(s.len() as u32).to_be_bytes());
                o.extend_from_slice(s.as_bytes());
            }
            V::Name(s) => o.extend(name_bytes(s)?),
            V::Args(xs) => {
                o.extend_from_slice(&(xs.len() as u32).to_be_bytes());
                for x in xs {
                    x.enc(o)?;
                }
            }
        }
        Some(())
    }

    /// The Clarity literal.
    pub fn literal(&self) -> String {
        let mut s = String::new();
        self.lit(&mut s);
        s
    }

    fn lit(&self, s: &mut String) {
        let seq = |s: &mut String, head: &str, xs: &[V]| {
            s.push('(');
            s.push_str(head);
            s.push(' ');
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                x.lit(s);
            }
            s.push(')');
        };
        match self {
            V::Int(i) => s.push_str(&dec_signed(*i)),
            V::UInt(i) => {
                s.push('u');
                s.push_str(&dec(*i));
            }
            V::Buf(b) => {
                s.push_str("0x");
                s.push_str(&crate::engine::hex(b));
            }
            V::True => s.push_str("true"),
            V::False => s.push_str("false"),
            V::Std(a) => s.push_str(a),
            V::Con(a, n) => {
                s.push_str(a);
                s.push('.');
                s.push_str(n);
            }
            V::Ok(x) => {
                s.push_str("(ok ");
                x.lit(s);
                s.push(')');
            }
            V::Err(x) => {
                s.push_str("(err ");
                x.lit(s);
                s.push(')');
            }
            V::None => s.push_str("none"),
            V::Some(x) => {
                s.push_str("(some ");
                x.lit(s);
                s.push(')');
            }
            V::List(xs) => seq(s, "list", xs),
            V::Args(xs) => seq(s, "fn-args", xs),
            V::Tuple(xs) => {
                s.push_str("(tuple ");
                for (i, (k, x)) in xs.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    s.push('(');
                    s.push_str(k);
                    s.push(' ');
                    x.lit(s);
                    s.push(')');
                }
                s.push(')');
            }
            V::Ascii(x) => {
                s.push('"');
                s.push_str(x);
                s.push('"');
            }
            V::Utf8(x) => {
                s.push_str("u\"");
                s.push_str(x);
                s.push('"');
            }
            V::Name(x) => s.push_str(x),
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            V::Ok(x) | V::Err(x) | V::Some(x) => 1 + x.depth(),
            V::List(xs) | V::Args(xs) => 1 + xs.iter().map(V::depth).max().unwrap_or(0),
            V::Tuple(xs) => 1 + xs.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }

    /// Number of nodes.
    pub fn size(&self) -> usize {
        match self {
            V::Ok(x) | V::Err(x) | V::Some(x) => 1 + x.size(),
            V::List(xs) | V::Args(xs) => 1 + xs.iter().map(V::size).sum::<usize>(),
            V::Tuple(xs) => 1 + xs.iter().map(|x| x.1.size()).sum::<usize>(),
            _ => 1,
        }
    }

    /// Rough size in bytes.
    pub fn weight(&self) -> usize {
        16 + match self {
            V::Ok(x) | V::Err(x) | V::Some(x) => x.weight(),
            V::List(xs) | V::Args(xs) => xs.iter().map(V::weight).sum::<usize>(),
            V::Tuple(xs) => xs.iter().map(|x| x.0.len() + x.1.weight()).sum::<usize>(),
            V::Buf(b) => b.len(),
            V::Ascii(t) | V::Utf8(t) | V::Name(t) => t.len(),
            V::Con(_, t) => 40 + t.len(),
            _ => 16,
        }
    }

    /// Calls `f` on the n-th node (preorder); used to alter one place.
    pub fn at(&mut self, n: &mut usize, f: &mut dyn FnMut(&mut V)) -> bool {
        if *n == 0 {
            f(self);
            return true;
        }
        *n -= 1;
        match self {
            V::Ok(x) | V::Err(x) | V::Some(x) => x.at(n, f),
            V::List(xs) | V::Args(xs) => xs.iter_mut().any(|x| x.at(n, f)),
            V::Tuple(xs) => xs.iter_mut().any(|x| x.1.at(n, f)),
            _ => false,
        }
    }
}

pub fn dec(mut v: u128) -> String {
    if v == 0 {
        return "0".into();
    }
    let mut d = vec![];
    while v > 0 {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
    }
    d.reverse();
    d.into_iter().map(char::from).collect()
}

pub fn dec_signed(v: i128) -> String {
    if v < 0 {
        format!("-{}", dec((v as u128).wrapping_neg()))
    } else {
        dec(v as u128)
    }
}

// ---- strict parser ---------------------------------------------------------

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() - self.i < n {
            return None;
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn u32(&mut self) -> Option<usize> {
        let b = self.take(4)?;
        Some(((b[0] as usize) << 24) | ((b[1] as usize) << 16) | ((b[2] as usize) << 8) | b[3] as usize)
    }
    fn name(&mut self) -> Option<String> {
        let n = self.u8()? as usize;
        if n > 128 {
            return None;
        }
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
    fn addr(&mut self) -> Option<String> {
        let v = self.u8()?;
        let h = self.take(20)?;
        if !VERSIONS.contains(&v) {
            return None;
        }
        Some(address(v, h))
    }
    fn value(&mut self) -> Option<V> {
        let t = self.u8()?;
        let k = *STD_KINDS.iter().find(|k| k.tag() == t)?;
        self.body(k)
    }
    fn body(&mut self, k: K) -> Option<V> {
        Some(match k {
            K::Int => {
                let mut v = 0u128;
                for b in self.take(16)? {
                    v = (v << 8) | u128::from(*b);
                }
                V::Int(v as i128)
            }
            K::UInt => {
                let mut v = 0u128;
                for b in self.take(16)? {
                    v = (v << 8) | u128::from(*b);
                }
                V::UInt(v)
            }
            K::Buf => {
                let n = self.u32()?;
                V::Buf(self.take(n)?.to_vec())
            }
            K::True => V::True,
            K::False => V::False,
            K::None => V::None,
            K::Std => V::Std(self.addr()?),
            K::Con => {
                let a = self.addr()?;
                V::Con(a, self.name()?)
            }
            K::Ok => V::Ok(Box::new(self.value()?)),
            K::Err => V::Err(Box::new(self.value()?)),
            K::Some => V::Some(Box::new(self.value()?)),
            K::List => V::List(self.seq()?),
            K::Args => V::Args(self.seq()?),
            K::Tuple => {
                let n = self.u32()?;
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.name()?;
                    v.push((k, self.value()?));
                }
                V::Tuple(v)
            }
            K::Ascii => {
                let n = self.u32()?;
                let b = self.take(n)?;
                if b.iter().any(|b| *b > 127) {
                    return None;
                }
                V::Ascii(b.iter().map(|b| *b as char).collect())
            }
            K::Utf8 => {
                let n = self.u32()?;
                V::Utf8(std::str::from_utf8(self.take(n)?).ok()?.to_string())
            }
            K::Name => V::Name(self.name()?),
        })
    }
    fn seq(&mut self) -> Option<Vec<V>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.value()?);
        }
        Some(v)
    }
}

/// Strictly parses a value of kind `k` at the start of `b`.
pub fn parse_as(k: K, b: &[u8]) -> Option<(V, usize)> {
    let mut p = P { b, i: 0 };
    if k != K::Name && k != K::Args && p.u8()? != k.tag() {
        return None;
    }
    let v = p.body(k)?;
    Some((v, p.i))
}

/// Strictly parses any self-described value at the start of `b`.
pub fn parse_any(b: &[u8]) -> Option<(V, usize)> {
    let mut p = P { b, i: 0 };
    let v = p.value()?;
    Some((v, p.i))
}

// ---- bridges ---------------------------------------------------------------

pub type B = Box<dyn Clarity>;

/// Builds the library value. `style` selects among equivalent constructors.
pub fn to_lib(v: &V, style: u8) -> B {
    use stacks_rs::clarity;
    let alt = style & 1 == 1;
    match v {
        V::Int(i) => {
            if alt {
                Box::new(clarity!(Int, *i))
            } else {
                Box::new(cl::Int::new(*i))
            }
        }
        V::UInt(i) => {
            if alt {
                Box::new(clarity!(UInt, *i))
            } else {
                Box::new(cl::UInt::new(*i))
            }
        }
        V::Buf(b) => {
            if alt {
                if b.is_empty() {
                    Box::new(clarity!(Buffer))
                } else {
                    Box::new(clarity!(Buffer, b))
                }
            } else {
                Box::new(cl::Buffer::new(b.clone()))
            }
        }
        V::True => Box::new(clarity!(True)),
        V::False => Box::new(clarity!(False)),
        V::Std(a) => {
            if alt {
                Box::new(clarity!(PrincipalStandard, a))
            } else {
                Box::new(cl::PrincipalStandard::new(a.clone()))
            }
        }
        V::Con(a, n) => {
            if alt {
                Box::new(clarity!(PrincipalContract, a, n))
            } else {
                Box::new(cl::PrincipalContract::new((a.clone(), n.clone())))
            }
        }
        V::Ok(x) => Box::new(cl::ResponseOk::new(to_lib(x, style))),
        V::Err(x) => Box::new(cl::ResponseErr::new(to_lib(x, style))),
        V::None => Box::new(clarity!(OptionalNone)),
        V::Some(x) => Box::new(cl::OptionalSome::new(to_lib(x, style))),
        V::List(xs) => {
            if alt && xs.is_empty() {
                Box::new(clarity!(List))
            } else {
                Box::new(cl::List::new(xs.iter().map(|x| to_lib(x, style)).collect()))
            }
        }
        V::Tuple(_) => Box::new(lib_tuple(v, style)),
        V::Ascii(s) => {
            if alt {
                Box::new(clarity!(StringAscii, s))
            } else {
                Box::new(cl::StringAscii::new(s.clone()))
            }
        }
        V::Utf8(s) => {
            if alt {
                Box::new(clarity!(StringUtf8, s))
            } else {
                Box::new(cl::StringUtf8::new(s.clone()))
            }
        }
        V::Name(s) => {
            if alt {
                Box::new(clarity!(LengthPrefixedStr, s))
            } else {
                Box::new(cl::LengthPrefixedStr::new(s.clone()))
            }
        }
        V::Args(xs) => Box::new(lib_args(xs, style)),
    }
}

pub fn lib_tuple(v: &V, style: u8) -> cl::Tuple {
    use stacks_rs::clarity;
    match v {
        V::Tuple(xs) => {
            if style & 1 == 1 && xs.is_empty() {
                clarity!(Tuple)
            } else {
                cl::Tuple::new(xs.iter().map(|(k, x)| (k.clone(), to_lib(x, style))).collect())
            }
        }
        _ => panic!("harness: not a tuple"),
    }
}

pub fn lib_args(xs: &[V], style: u8) -> cl::FnArguments {
    use stacks_rs::clarity;
    if style & 1 == 1 && xs.is_empty() {
        clarity!(FnArguments)
    } else {
        cl::FnArguments::new(xs.iter().map(|x| to_lib(x, style)).collect())
    }
}

/// Reads a library value back into the model through its public accessors.
pub fn from_lib(b: &dyn Clarity) -> Option<V> {
    let a = b.as_any();
    macro_rules! get {
        ($t:ty) => {
            a.downcast_ref::<$t>()
        };
    }
    if let Some(x) = get!(cl::Int) {
        return Some(V::Int(*x.value()));
    }
    if let Some(x) = get!(cl::UInt) {
        return Some(V::UInt(*x.value()));
    }
    if let Some(x) = get!(cl::Buffer) {
        return Some(V::Buf(x.value().clone()));
    }
    if let Some(x) = get!(cl::True) {
        return if *x.value() { Some(V::True) } else { None };
    }
    if let Some(x) = get!(cl::False) {
        return if *x.value() { None } else { Some(V::False) };
    }
    if let Some(x) = get!(cl::PrincipalStandard) {
        return Some(V::Std(x.value().clone()));
    }
    if let Some(x) = get!(cl::PrincipalContract) {
        return Some(V::Con(x.value().0.clone(), x.value().1.clone()));
    }
    if let Some(x) = get!(cl::ResponseOk) {
        return Some(V::Ok(Box::new(from_lib(x.value().as_ref())?)));
    }
    if let Some(x) = get!(cl::ResponseErr) {
        return Some(V::Err(Box::new(from_lib(x.value().as_ref())?)));
    }
    if let Some(x) = get!(cl::OptionalSome) {
        return Some(V::Some(Box::new(from_lib(x.value().as_ref())?)));
    }
    if get!(cl::OptionalNone).is_some() {
        return Some(V::None);
    }
    if let Some(x) = get!(cl::List) {
        return Some(V::List(
            x.value().iter().map(|y| from_lib(y.as_ref())).collect::<Option<Vec<_>>>()?,
        ));
    }
    if let Some(x) = get!(cl::FnArguments) {
        return Some(V::Args(
            x.value().iter().map(|y| from_lib(y.as_ref())).collect::<Option<Vec<_>>>()?,
        ));
    }
    if let Some(x) = get!(cl::Tuple) {
        return Some(V::Tuple(
            x.value()
                .iter()
                .map(|(k, y)| Some((k.clone(), from_lib(y.as_ref())?)))
                .collect::<Option<Vec<_>>>()?,
        ));
    }
    if let Some(x) = get!(cl::StringAscii) {
        return Some(V::Ascii(x.value().clone()));
    }
    if let Some(x) = get!(cl::StringUtf8) {
        return Some(V::Utf8(x.value().clone()));
    }
    if let Some(x) = get!(cl::LengthPrefixedStr) {
        return Some(V::Name(x.value().clone()));
    }
    None
}

/// The typed decoder of each kind.
pub fn lib_decode_as(k: K, b: &[u8]) -> Result<B, cl::Error> {
    use cl::Codec;
    Ok(match k {
        K::Int => Box::new(cl::Int::decode(b)?) as B,
        K::UInt => Box::new(cl::UInt::decode(b)?),
        K::Buf => Box::new(cl::Buffer::decode(b)?),
        K::True => Box::new(cl::True::decode(b)?),
        K::False => Box::new(cl::False::decode(b)?),
        K::Std => Box::new(cl::PrincipalStandard::decode(b)?),
        K::Con => Box::new(cl::PrincipalContract::decode(b)?),
        K::Ok => Box::new(cl::ResponseOk::decode(b)?),
        K::Err => Box::new(cl::ResponseErr::decode(b)?),
        K::None => Box::new(cl::OptionalNone::decode(b)?),
        K::Some => Box::new(cl::OptionalSome::decode(b)?),
        K::List => Box::new(cl::List::decode(b)?),
        K::Tuple => Box::new(cl::Tuple::decode(b)?),
        K::Ascii => Box::new(cl::StringAscii::decode(b)?),
        K::Utf8 => Box::new(cl::StringUtf8::decode(b)?),
        K::Name => Box::new(cl::LengthPrefixedStr::decode(b)?),
        K::Args => Box::new(cl::FnArguments::decode(b)?),
    })
}
