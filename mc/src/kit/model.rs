//! Reference models. Deliberately boring.

/// The specification of escaping: a character-by-character transducer.
pub fn escape(s: &str) -> String {
    let mut out = String::with_capacity(s.len() * 2 + 8);
    escape_into(s, &mut out);
    out
}

pub fn escape_into(s: &str, out: &mut String) {
    for c in s.chars() {
        escape_char(c, out);
    }
}

pub fn escape_char(c: char, out: &mut String) {
    match c {
        '"' => out.push_str("&quot;"),
        '&' => out.push_str("&amp;"),
        '\'' => out.push_str("&#39;"),
        '<' => out.push_str("&lt;"),
        '>' => out.push_str("&gt;"),
        c => out.push(c),
    }
}

/// Byte-level version for bulk work (the five characters are ASCII).
pub fn escape_bytes(s: &[u8], out: &mut Vec<u8>) {
    for &b in s {
        match b {
            b'"' => out.extend_from_slice(b"&quot;"),
            b'&' => out.extend_from_slice(b"&amp;"),
            b'\'' => out.extend_from_slice(b"&#39;"),
            b'<' => out.extend_from_slice(b"&lt;"),
            b'>' => out.extend_from_slice(b"&gt;"),
            b => out.push(b),
        }
    }
}

pub const SPECIALS: [u8; 5] = [b'"', b'&', b'\'', b'<', b'>'];
