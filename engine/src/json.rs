//! A small JSON reader, used only by harness oracles to look into files the program under test wrote.
#[derive(Clone, Debug)]
pub enum J { Atom(String), Str(Vec<u8>), Arr(Vec<J>), Obj(Vec<(Vec<u8>, J)>) }
pub fn parse(s: &[u8]) -> Option<J> {
    let mut i = 0;
    let v = val(s, &mut i, 0)?;
    ws(s, &mut i);
    if i == s.len() { Some(v) } else { None }
}
fn ws(s: &[u8], i: &mut usize) { while *i < s.len() && matches!(s[*i], b' ' | b'\n' | b'\t' | b'\r') { *i += 1; } }
fn string(s: &[u8], i: &mut usize) -> Option<Vec<u8>> {
    if s.get(*i) != Some(&b'"') { return None; }
    *i += 1;
    let mut o = vec![];
    loop {
        let c = *s.get(*i)?;
        *i += 1;
        match c {
            b'"' => return Some(o),
            b'\\' => {
                let e = *s.get(*i)?;
                *i += 1;
                match e {
                    b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'), b'b' => o.push(8), b'f' => o.push(12),
                    b'u' => {
                        let h = std::str::from_utf8(s.get(*i..*i + 4)?).ok()?;
                        *i += 4;
                        let mut c = u32::from_str_radix(h, 16).ok()?;
                        if (0xd800..0xdc00).contains(&c) && s.get(*i..*i + 2) == Some(b"\\u") {
                            let h = std::str::from_utf8(s.get(*i + 2..*i + 6)?).ok()?;
                            *i += 6;
                            c = 0x10000 + ((c - 0xd800) << 10) + (u32::from_str_radix(h, 16).ok()?.wrapping_sub(0xdc00) & 0x3ff);
                        }
                        o.extend_from_slice(char::from_u32(c)?.to_string().as_bytes());
                    }
                    b'"' | b'\\' | b'/' => o.push(e),
                    _ => return None,
                }
            }
            c if c < 0x20 => return None,
            c => o.push(c),
        }
    }
}
fn val(s: &[u8], i: &mut usize, d: u32) -> Option<J> {
    if d > 64 { return None; }
    ws(s, i);
    match *s.get(*i)? {
        b'"' => Some(J::Str(string(s, i)?)),
        b'[' => {
            *i += 1;
            let mut v = vec![];
            ws(s, i);
            if s.get(*i) == Some(&b']') { *i += 1; return Some(J::Arr(v)); }
            loop {
                v.push(val(s, i, d + 1)?);
                ws(s, i);
                match *s.get(*i)? { b',' => *i += 1, b']' => { *i += 1; return Some(J::Arr(v)); } _ => return None }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            ws(s, i);
            if s.get(*i) == Some(&b'}') { *i += 1; return Some(J::Obj(v)); }
            loop {
                ws(s, i);
                let k = string(s, i)?;
                ws(s, i);
                if *s.get(*i)? != b':' { return None; }
                *i += 1;
                v.push((k, val(s, i, d + 1)?));
                ws(s, i);
                match *s.get(*i)? { b',' => *i += 1, b'}' => { *i += 1; return Some(J::Obj(v)); } _ => return None }
            }
        }
        _ => {
            let b = *i;
            while *i < s.len() && !matches!(s[*i], b',' | b']' | b'}' | b' ' | b'\n' | b'\t' | b'\r' | b':') { *i += 1; }
            let t = std::str::from_utf8(&s[b..*i]).ok()?;
            if matches!(t, "true" | "false" | "null") || t.parse::<f64>().is_ok() { Some(J::Atom(t.to_string())) } else { None }
        }
    }
}
/// "a/3/b": a value; a trailing "#": number of elements; "": the whole document must parse
pub fn query(j: &J, q: &[u8]) -> Option<Vec<u8>> {
    let mut j = j;
    if !q.is_empty() {
        for p in q.split(|c| *c == b'/') {
            if p == b"#" { return Some(match j { J::Arr(v) => v.len(), J::Obj(v) => v.len(), _ => return None }.to_string().into_bytes()); }
            j = match j {
                J::Arr(v) => v.get(std::str::from_utf8(p).ok()?.parse::<usize>().ok()?)?,
                J::Obj(v) => &v.iter().find(|x| x.0 == p)?.1,
                _ => return None,
            };
        }
    }
    Some(match j { J::Atom(a) => a.clone().into_bytes(), J::Str(s) => s.clone(), J::Arr(_) => b"[]".to_vec(), J::Obj(_) => b"{}".to_vec() })
}
