//! Strict readers of the three output formats, written without looking at how
//! twiggy writes them.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64, String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> Result<&str, String> {
        match self.get(k) {
            Some(J::Str(s)) => Ok(s),
            o => Err(format!("JSON: field \"{}\" should be a string, is {:?}", k, o)),
        }
    }
    pub fn num(&self, k: &str) -> Result<f64, String> {
        match self.get(k) {
            Some(J::Num(n, _)) => Ok(*n),
            o => Err(format!("JSON: field \"{}\" should be a number, is {:?}", k, o)),
        }
    }
    pub fn int(&self, k: &str) -> Result<i64, String> {
        let n = self.num(k)?;
        if n.fract() != 0.0 {
            return Err(format!("JSON: field \"{}\" should be a whole number, is {}", k, n));
        }
        Ok(n as i64)
    }
    pub fn arr(&self, k: &str) -> Result<&[J], String> {
        match self.get(k) {
            Some(J::Arr(v)) => Ok(v),
            o => Err(format!("JSON: field \"{}\" should be an array, is {:?}", k, o)),
        }
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}

pub fn json(b: &[u8]) -> Result<J, String> {
    std::str::from_utf8(b).map_err(|e| format!("JSON: not UTF-8: {}", e))?;
    let mut p = P { s: b, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != b.len() {
        return Err(format!("JSON: trailing bytes at offset {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn err<T>(&self, what: &str) -> Result<T, String> {
        let lo = self.i.saturating_sub(30);
        let hi = (self.i + 30).min(self.s.len());
        Err(format!(
            "JSON: {} at offset {} near {:?}",
            what,
            self.i,
            String::from_utf8_lossy(&self.s[lo..hi])
        ))
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 5000 {
            return self.err("nested too deep for this reader");
        }
        let r = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        if v.iter().any(|(n, _)| *n == k) {
                            return self.err("duplicate key");
                        }
                        self.ws();
                        if self.peek() != b':' {
                            return self.err("expected `:`");
                        }
                        self.i += 1;
                        self.ws();
                        let x = self.value()?;
                        v.push((k, x));
                        self.ws();
                        match self.peek() {
                            b',' => self.i += 1,
                            b'}' => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("expected `,` or `}`"),
                        }
                    }
                }
                J::Obj(v)
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        match self.peek() {
                            b',' => self.i += 1,
                            b']' => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.err("expected `,` or `]`"),
                        }
                    }
                }
                J::Arr(v)
            }
            b'"' => J::Str(self.string()?),
            b'-' | b'0'..=b'9' => self.number()?,
            _ => {
                for (w, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
                    if self.s[self.i..].starts_with(w.as_bytes()) {
                        self.i += w.len();
                        self.depth -= 1;
                        return Ok(v);
                    }
                }
                return self.err("expected a value");
            }
        };
        self.depth -= 1;
        Ok(r)
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else if self.peek().is_ascii_digit() {
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        } else {
            return self.err("bad number");
        }
        if self.peek() == b'.' {
            self.i += 1;
            if !self.peek().is_ascii_digit() {
                return self.err("bad number");
            }
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if !self.peek().is_ascii_digit() {
                return self.err("bad number");
            }
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
        }
        let raw = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
        let f = raw.parse::<f64>().map_err(|e| e.to_string())?;
        Ok(J::Num(f, raw))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).and_then(|h| std::str::from_utf8(h).ok());
        match h.and_then(|h| u32::from_str_radix(h, 16).ok()) {
            Some(v) => {
                self.i += 4;
                Ok(v)
            }
            None => self.err("bad \\u escape"),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return self.err("expected a string");
        }
        self.i += 1;
        let mut out = vec![];
        loop {
            match self.s.get(self.i) {
                None => return self.err("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(String::from_utf8(out).unwrap_or_default());
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    let ch = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut v = self.hex4()?;
                            if (0xd800..0xdc00).contains(&v) {
                                if self.peek() != b'\\' || self.s.get(self.i + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return self.err("lone surrogate");
                                }
                                v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            match char::from_u32(v) {
                                Some(c) => c,
                                None => return self.err("bad \\u escape"),
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                Some(&c) if c < 0x20 => return self.err("raw control character in a string"),
                Some(&c) => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

/// RFC 4180, with LF or CRLF record ends. Returns the header and the records.
pub fn csv(b: &[u8]) -> Result<(Vec<String>, Vec<Vec<String>>), String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("CSV: not UTF-8: {}", e))?;
    let mut recs: Vec<Vec<String>> = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let mut rec = vec![];
        loop {
            let mut f = String::new();
            if c.get(i) == Some(&'"') {
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("CSV: unterminated quoted field".into()),
                        Some('"') if c.get(i + 1) == Some(&'"') => {
                            f.push('"');
                            i += 2;
                        }
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        Some(&x) => {
                            f.push(x);
                            i += 1;
                        }
                    }
                }
                if !matches!(c.get(i), None | Some(',') | Some('\n') | Some('\r')) {
                    return Err(format!("CSV: text after a quoted field in record {}", recs.len()));
                }
            } else {
                while let Some(&x) = c.get(i) {
                    if matches!(x, ',' | '\n' | '\r') {
                        break;
                    }
                    if x == '"' {
                        return Err(format!("CSV: bare quote in record {}", recs.len()));
                    }
                    f.push(x);
                    i += 1;
                }
            }
            rec.push(f);
            match c.get(i) {
                Some(',') => i += 1,
                Some('\n') => {
                    i += 1;
                    break;
                }
                Some('\r') if c.get(i + 1) == Some(&'\n') => {
                    i += 2;
                    break;
                }
                Some('\r') => return Err(format!("CSV: bare carriage return in record {}", recs.len())),
                _ => return Err("CSV: the last record is not terminated".into()),
            }
        }
        if let Some(first) = recs.first() {
            if first.len() != rec.len() {
                return Err(format!(
                    "CSV: record {} has {} fields, the header has {}",
                    recs.len(),
                    rec.len(),
                    first.len()
                ));
            }
        }
        recs.push(rec);
    }
    if recs.is_empty() {
        return Ok((vec![], vec![]));
    }
    let head = recs.remove(0);
    Ok((head, recs))
}

/// An aligned table: a header, a rule, rows. All columns but the last must be
/// as wide as the rule says. A line that does not look like a row continues the
/// last cell of the row before it (names may contain line breaks).
pub fn table(b: &[u8]) -> Result<(Vec<String>, Vec<Vec<String>>), String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("text: not UTF-8: {}", e))?;
    if !s.ends_with('\n') {
        return Err("text: the last line is not terminated".into());
    }
    let lines: Vec<&str> = s[..s.len() - 1].split('\n').collect();
    if lines.len() < 2 {
        return Err("text: no header and rule".into());
    }
    let rule = lines[1];
    let cols: Vec<&str> = rule.split('┼').collect();
    if cols.iter().any(|c| c.chars().any(|x| x != '─')) {
        return Err(format!("text: second line is no rule: {:?}", rule));
    }
    // The rule has one dash of padding on each inner side of a column.
    let n = cols.len();
    let widths: Vec<usize> = cols
        .iter()
        .enumerate()
        .map(|(i, c)| c.chars().count().saturating_sub(if i + 1 == n { 1 } else { 2 }))
        .collect();
    let cut = |line: &str, sep: char| -> Option<Vec<String>> {
        let ch: Vec<char> = line.chars().collect();
        let mut at = 0;
        let mut out = vec![];
        for (i, w) in widths.iter().enumerate() {
            if ch.get(at) != Some(&' ') {
                return None;
            }
            at += 1;
            if i + 1 == n {
                out.push(ch[at..].iter().collect());
                break;
            }
            if at + w + 2 > ch.len() {
                return None;
            }
            let cell: String = ch[at..at + w].iter().collect();
            at += w;
            if ch[at] != ' ' || ch[at + 1] != sep {
                return None;
            }
            at += 2;
            out.push(cell);
        }
        Some(out)
    };
    let head = match cut(lines[0], '│') {
        Some(h) => h.iter().map(|x| x.trim().to_string()).collect(),
        None => return Err(format!("text: header {:?} does not line up with the rule {:?}", lines[0], rule)),
    };
    let mut rows: Vec<Vec<String>> = vec![];
    for l in &lines[2..] {
        match cut(l, '┊') {
            Some(mut r) => {
                for c in r.iter_mut().take(n - 1) {
                    // Right aligned.
                    let t = c.trim_start().to_string();
                    if t.ends_with(' ') {
                        return Err(format!("text: cell is not right aligned in {:?}", l));
                    }
                    *c = t;
                }
                rows.push(r);
            }
            None => match rows.last_mut() {
                Some(r) => {
                    let c = r.last_mut().unwrap();
                    c.push('\n');
                    c.push_str(l);
                }
                None => return Err(format!("text: {:?} does not line up with the rule", l)),
            },
        }
    }
    Ok((head, rows))
}
