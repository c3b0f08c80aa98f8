//! A strict JSON reader that keeps order, duplicates and number texts.
use crate::tok::from_cps;
use serde_json::Value as J;

#[derive(Clone, Debug, PartialEq)]
pub enum Js { Null, Bool(bool), Num(String), Str(String), Arr(Vec<Js>), Obj(Vec<(String, Js)>) }

pub fn parse(b: &str) -> Result<Js, String> {
    let mut p = P { b: b.as_bytes(), s: b, i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() { return Err(format!("trailing input at {}", p.i)); }
    Ok(v)
}
struct P<'a> { b: &'a [u8], s: &'a str, i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') { self.i += 1; } }
    fn err<T>(&self, m: &str) -> Result<T, String> { Err(format!("{m} at {}", self.i)) }
    fn peek(&self) -> u8 { self.b.get(self.i).copied().unwrap_or(0) }
    fn lit(&mut self, l: &str, v: Js) -> Result<Js, String> {
        if self.s[self.i..].starts_with(l) { self.i += l.len(); Ok(v) } else { self.err("bad literal") }
    }
    fn value(&mut self, d: usize) -> Result<Js, String> {
        if d > 2000 { return self.err("too deep"); }
        match self.peek() {
            b'n' => self.lit("null", Js::Null),
            b't' => self.lit("true", Js::Bool(true)),
            b'f' => self.lit("false", Js::Bool(false)),
            b'"' => Ok(Js::Str(self.string()?)),
            b'[' => {
                self.i += 1; self.ws();
                let mut xs = vec![];
                if self.peek() == b']' { self.i += 1; return Ok(Js::Arr(xs)); }
                loop {
                    self.ws(); xs.push(self.value(d + 1)?); self.ws();
                    match self.peek() { b',' => self.i += 1, b']' => { self.i += 1; return Ok(Js::Arr(xs)) } _ => return self.err("expected , or ]") }
                }
            }
            b'{' => {
                self.i += 1; self.ws();
                let mut xs = vec![];
                if self.peek() == b'}' { self.i += 1; return Ok(Js::Obj(xs)); }
                loop {
                    self.ws();
                    if self.peek() != b'"' { return self.err("expected key"); }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' { return self.err("expected :"); }
                    self.i += 1; self.ws();
                    let v = self.value(d + 1)?;
                    xs.push((k, v));
                    self.ws();
                    match self.peek() { b',' => self.i += 1, b'}' => { self.i += 1; return Ok(Js::Obj(xs)) } _ => return self.err("expected , or }") }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => self.err("expected a value"),
        }
    }
    fn number(&mut self) -> Result<Js, String> {
        let st = self.i;
        if self.peek() == b'-' { self.i += 1; }
        match self.peek() {
            b'0' => self.i += 1,
            b'1'..=b'9' => while self.peek().is_ascii_digit() { self.i += 1 },
            _ => return self.err("bad number"),
        }
        if self.peek() == b'.' {
            self.i += 1;
            if !self.peek().is_ascii_digit() { return self.err("bad fraction"); }
            while self.peek().is_ascii_digit() { self.i += 1 }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') { self.i += 1; }
            if !self.peek().is_ascii_digit() { return self.err("bad exponent"); }
            while self.peek().is_ascii_digit() { self.i += 1 }
        }
        Ok(Js::Num(self.s[st..self.i].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("bad \\u")?;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) { return self.err("bad \\u"); }
        self.i += 4;
        Ok(u32::from_str_radix(h, 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() { Some(c) => c, None => return self.err("unterminated string") };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'), b'\\' => out.push('\\'), b'/' => out.push('/'), b'b' => out.push('\u{8}'), b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'), b'r' => out.push('\r'), b't' => out.push('\t'),
                        b'u' => {
                            let u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if !self.s[self.i..].starts_with("\\u") { return self.err("lone surrogate"); }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) { return self.err("lone surrogate"); }
                                out.push(char::from_u32(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)).unwrap());
                            } else { match char::from_u32(u) { Some(c) => out.push(c), None => return self.err("lone surrogate") } }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                c if (c as u32) < 0x20 => return self.err("unescaped control character"),
                c => out.push(c),
            }
        }
    }
}

/// (negative, digits without leading or trailing zeroes, exponent): equal iff the numbers are equal.
pub fn canon(s: &str) -> Option<(bool, String, i128)> {
    let (neg, s) = match s.as_bytes().first()? { b'-' => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) };
    let (m, e) = match s.find(['e', 'E']) { Some(i) => (&s[..i], s[i + 1..].strip_prefix('+').unwrap_or(&s[i + 1..]).parse::<i128>().ok()?), None => (s, 0) };
    let (i, f) = match m.find('.') { Some(p) => (&m[..p], &m[p + 1..]), None => (m, "") };
    if !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) { return None; }
    let all = format!("{i}{f}");
    let mut e = e - f.len() as i128;
    let t = all.trim_start_matches('0');
    let d = t.trim_end_matches('0');
    e += (t.len() - d.len()) as i128;
    if d.is_empty() { Some((false, String::new(), 0)) } else { Some((neg, d.to_string(), e)) }
}

/// Does text `s`, unquoted or as the content of a key, write the scalar x of the specification?
fn scalar_text(s: &str, x: &J) -> bool {
    match x["j"].as_str().unwrap() {
        "null" => s == "null",
        "bool" => s == if x["v"].as_bool().unwrap() { "true" } else { "false" },
        "int" => s == x["v"].as_str().unwrap(),
        "f64" => s.parse::<f64>().map(|f| f.to_bits() == x["v"].as_str().unwrap().parse::<f64>().unwrap().to_bits()).unwrap_or(false),
        "f32" => s.parse::<f32>().map(|f| f.to_bits() == x["v"].as_str().unwrap().parse::<f32>().unwrap().to_bits()).unwrap_or(false),
        "dec" => { let e = canon(&from_cps(&x["s"])); e.is_some() && canon(s) == e }
        "str" => s == from_cps(&x["s"]),
        "rawstr" => parse(&format!("\"{}\"", from_cps(&x["s"]))) == Ok(Js::Str(s.to_string())),
        _ => false,
    }
}
fn is_number(s: &str) -> bool { matches!(parse(s), Ok(Js::Num(n)) if n == s) }

pub fn matches(v: &Js, x: &J) -> bool {
    let kind = x["j"].as_str().unwrap();
    match (v, kind) {
        (Js::Null, "null") => true,
        (Js::Bool(b), "bool") => *b == x["v"].as_bool().unwrap(),
        (Js::Num(n), "int" | "f64" | "f32" | "dec") => scalar_text(n, x),
        (Js::Str(s), "str" | "rawstr") => scalar_text(s, x),
        (v, "raw") => parse(&from_cps(&x["s"])).as_ref() == Ok(v),
        (Js::Arr(a), "arr") => { let e = x["xs"].as_array().unwrap(); a.len() == e.len() && a.iter().zip(e).all(|(a, e)| matches(a, e)) }
        (Js::Obj(o), "obj") => {
            let e = x["xs"].as_array().unwrap();
            o.len() == e.len() && o.iter().zip(e).all(|((k, v), e)| {
                let ek = &e["key"];
                let numeric = matches!(ek["j"].as_str().unwrap(), "int" | "f64" | "f32" | "dec");
                scalar_text(k, ek) && (!numeric || is_number(k)) && matches(v, &e["x"])
            })
        }
        _ => false,
    }
}
