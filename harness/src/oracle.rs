//! Reference JSON (RFC 8259) reader, written from the grammar and independent
//! of the code under test.
use deser::{Atom, Event};

#[derive(PartialEq, Clone, Copy)]
pub enum Verdict {
    Invalid,
    Valid,
    /// Valid, but contains a number beyond the range of a double, which a
    /// parser may refuse.
    Huge,
}

pub enum Num {
    /// Plain integer literal within 64-bit range; the value.
    Int { neg: bool, mag: u64 },
    /// Anything else.
    Float { huge: bool, neg: bool },
}

pub struct Reader<'a> {
    b: &'a [u8],
    i: usize,
    pub huge: bool,
    pub events: Vec<Ev>,
}

/// A document event as the reference reader sees it.
pub enum Ev {
    Null,
    Bool(bool),
    Str(Vec<u8>),
    Int { neg: bool, mag: u64 },
    Float { neg: bool },
    SeqStart,
    SeqEnd,
    MapStart,
    MapEnd,
}

type R<T> = Result<T, ()>;

impl<'a> Reader<'a> {
    pub fn new(b: &'a [u8]) -> Reader<'a> {
        Reader { b, i: 0, huge: false, events: Vec::new() }
    }
    pub fn at_end(&self) -> bool {
        self.i == self.b.len()
    }
    /// Reads a whole document.
    pub fn document(&mut self) -> Verdict {
        let r = self.value();
        self.ws();
        if r.is_err() || self.i != self.b.len() {
            Verdict::Invalid
        } else if self.huge {
            Verdict::Huge
        } else {
            Verdict::Valid
        }
    }
    fn cur(&self) -> Option<u8> {
        if self.i < self.b.len() {
            Some(self.b[self.i])
        } else {
            None
        }
    }
    fn ws(&mut self) {
        while let Some(0x20 | 0x09 | 0x0a | 0x0d) = self.cur() {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &[u8]) -> R<()> {
        for &c in s {
            if self.cur() != Some(c) {
                return Err(());
            }
            self.i += 1;
        }
        Ok(())
    }
    fn value(&mut self) -> R<()> {
        self.ws();
        match self.cur().ok_or(())? {
            b'n' => {
                self.lit(b"null")?;
                self.events.push(Ev::Null);
            }
            b't' => {
                self.lit(b"true")?;
                self.events.push(Ev::Bool(true));
            }
            b'f' => {
                self.lit(b"false")?;
                self.events.push(Ev::Bool(false));
            }
            b'"' => {
                let s = self.string()?;
                self.events.push(Ev::Str(s));
            }
            b'[' => {
                self.i += 1;
                self.events.push(Ev::SeqStart);
                self.ws();
                if self.cur() == Some(b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.value()?;
                        self.ws();
                        match self.cur() {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(()),
                        }
                    }
                }
                self.events.push(Ev::SeqEnd);
            }
            b'{' => {
                self.i += 1;
                self.events.push(Ev::MapStart);
                self.ws();
                if self.cur() == Some(b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.events.push(Ev::Str(k));
                        self.ws();
                        if self.cur() != Some(b':') {
                            return Err(());
                        }
                        self.i += 1;
                        self.value()?;
                        self.ws();
                        match self.cur() {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(()),
                        }
                    }
                }
                self.events.push(Ev::MapEnd);
            }
            _ => match self.number()? {
                Num::Int { neg, mag } => self.events.push(Ev::Int { neg, mag }),
                Num::Float { huge, neg } => {
                    self.huge |= huge;
                    self.events.push(Ev::Float { neg });
                }
            },
        }
        Ok(())
    }
    fn is_digit(&self) -> bool {
        matches!(self.cur(), Some(b'0'..=b'9'))
    }
    /// number = [ "-" ] int [ frac ] [ exp ]
    pub fn number(&mut self) -> R<Num> {
        let neg = self.cur() == Some(b'-');
        if neg {
            self.i += 1;
        }
        let mut ival: u64 = 0; // wraps, see `big`
        let mut wide: u128 = 0;
        let mut big = false; // more than 64 bits
        let mut ndig: i64 = 0; // integer digits
        let mut nonzero = false;
        if self.cur() == Some(b'0') {
            self.i += 1;
            if self.is_digit() {
                return Err(());
            }
        } else {
            if !self.is_digit() {
                return Err(());
            }
            nonzero = true;
            while self.is_digit() {
                let d = self.b[self.i] - b'0';
                if ndig == 19 {
                    wide = ival as u128;
                }
                // up to 19 digits fit into 64 bits
                if ndig >= 19 && !big {
                    wide = wide.wrapping_mul(10).wrapping_add(d as u128);
                    big = wide > u64::MAX as u128;
                }
                ival = ival.wrapping_mul(10).wrapping_add(d as u64);
                self.i += 1;
                ndig += 1;
            }
        }
        let mut float = false;
        if self.cur() == Some(b'.') {
            float = true;
            self.i += 1;
            if !self.is_digit() {
                return Err(());
            }
            while self.is_digit() {
                if self.b[self.i] != b'0' {
                    nonzero = true;
                }
                self.i += 1;
            }
        }
        let mut exp: i64 = 0;
        let mut expdig = 0;
        let mut eneg2 = false;
        if let Some(b'e' | b'E') = self.cur() {
            float = true;
            self.i += 1;
            let mut eneg = false;
            match self.cur() {
                Some(b'+') => self.i += 1,
                Some(b'-') => {
                    eneg = true;
                    self.i += 1;
                }
                _ => {}
            }
            if !self.is_digit() {
                return Err(());
            }
            while self.is_digit() {
                if expdig < 12 {
                    exp = exp.wrapping_mul(10).wrapping_add((self.b[self.i] - b'0') as i64);
                }
                expdig += 1;
                self.i += 1;
            }
            eneg2 = eneg;
        }
        if !float && !big && !(neg && ndig >= 19 && ival > 1 << 63) {
            return Ok(Num::Int { neg, mag: ival });
        }
        // |value| >= 10^(ndig-1+exp) when it has integer digits
        Ok(Num::Float { huge: nonzero && !eneg2 && (expdig >= 3 || ndig >= 200) && ndig + exp >= 309, neg })
    }
    pub fn string(&mut self) -> R<Vec<u8>> {
        if self.cur() != Some(b'"') {
            return Err(());
        }
        self.i += 1;
        let mut out = Vec::new();
        loop {
            let c = self.cur().ok_or(())?;
            match c {
                b'"' => {
                    self.i += 1;
                    return Ok(out);
                }
                0..=0x1f => return Err(()),
                b'\\' => {
                    self.i += 1;
                    let e = self.cur().ok_or(())?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut c = self.hex4()?;
                            if (0xdc00..0xe000).contains(&c) {
                                return Err(());
                            }
                            if (0xd800..0xdc00).contains(&c) {
                                self.lit(b"\\u")?;
                                let d = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&d) {
                                    return Err(());
                                }
                                c = 0x10000 + ((c & 0x3ff) << 10) + (d & 0x3ff);
                            }
                            put_utf8(&mut out, c);
                        }
                        _ => return Err(()),
                    }
                }
                0x20..=0x7f => {
                    out.push(c);
                    self.i += 1;
                }
                _ => {
                    let n = utf8_len(&self.b[self.i..]).ok_or(())?;
                    for _ in 0..n {
                        out.push(self.b[self.i]);
                        self.i += 1;
                    }
                }
            }
        }
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let h = hex(self.cur().ok_or(())?).ok_or(())?;
            v = v << 4 | h;
            self.i += 1;
        }
        Ok(v)
    }
}

/// Value of a hex digit.
pub fn hex(c: u8) -> Option<u32> {
    // one branch only, so that symbolic digits do not split by class
    let ok = ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'));
    if ok {
        Some((c & 15) as u32 + 9 * (c >> 6) as u32)
    } else {
        None
    }
}
pub fn put_utf8(out: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        out.push(c as u8);
    } else if c < 0x800 {
        out.push((0xc0 | c >> 6) as u8);
        out.push((0x80 | c & 0x3f) as u8);
    } else if c < 0x10000 {
        out.push((0xe0 | c >> 12) as u8);
        out.push((0x80 | c >> 6 & 0x3f) as u8);
        out.push((0x80 | c & 0x3f) as u8);
    } else {
        out.push((0xf0 | c >> 18) as u8);
        out.push((0x80 | c >> 12 & 0x3f) as u8);
        out.push((0x80 | c >> 6 & 0x3f) as u8);
        out.push((0x80 | c & 0x3f) as u8);
    }
}
/// Length of the well-formed UTF-8 sequence at the start of `b` (RFC 3629
/// table of byte ranges).
pub fn utf8_len(b: &[u8]) -> Option<usize> {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let tail = |c: u8| c & 0xc0 == 0x80;
    let c = at(0);
    match c {
        0..=0x7f => Some(1),
        0xc2..=0xdf => {
            if tail(at(1)) {
                Some(2)
            } else {
                None
            }
        }
        0xe0..=0xef => {
            let d = at(1);
            let ok = match c {
                0xe0 => d >= 0xa0 && d <= 0xbf,
                0xed => d >= 0x80 && d <= 0x9f,
                _ => tail(d),
            };
            if ok && tail(at(2)) {
                Some(3)
            } else {
                None
            }
        }
        0xf0..=0xf4 => {
            let d = at(1);
            let ok = match c {
                0xf0 => d >= 0x90 && d <= 0xbf,
                0xf4 => d >= 0x80 && d <= 0x8f,
                _ => tail(d),
            };
            if ok && tail(at(2)) && tail(at(3)) {
                Some(4)
            } else {
                None
            }
        }
        _ => None,
    }
}
/// Whether `b` is well-formed UTF-8.
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        match utf8_len(&b[i..]) {
            Some(n) => i += n,
            None => return false,
        }
    }
    true
}
/// Whether a delivered event is what the reference reader saw.
pub fn matches(got: &Event, want: &Ev) -> bool {
    match (got, want) {
        (Event::SeqStart, Ev::SeqStart) | (Event::SeqEnd, Ev::SeqEnd) | (Event::MapStart, Ev::MapStart) | (Event::MapEnd, Ev::MapEnd) => true,
        (Event::Atom(a), w) => match (a, w) {
            (Atom::Null, Ev::Null) => true,
            (Atom::Bool(a), Ev::Bool(b)) => a == b,
            (Atom::Str(a), Ev::Str(b)) => crate::all::sym::same(a.as_bytes(), b),
            (Atom::U64(a), Ev::Int { neg, mag }) => (*a == *mag) & (!*neg | (*mag == 0)),
            (Atom::I64(a), Ev::Int { neg: true, mag }) => *a == (*mag as i64).wrapping_neg(),
            (Atom::I64(a), Ev::Int { neg: false, mag }) => (*a as u64 == *mag) & (*mag < 1 << 63),
            (Atom::F64(a), Ev::Int { neg: true, mag: 0 }) => *a == 0.0, // -0
            (Atom::F64(_), Ev::Float { .. }) => true, // values: C05
            _ => false,
        },
        _ => false,
    }
}
