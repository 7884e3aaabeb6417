//! Reference formatter (compact and pretty). Number text comes from decimal-rs.

use crate::model::{sorted, M};

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '/' => out.push_str("\\/"),
            '\u{8}' => out.push_str("\\b"),
            '\t' => out.push_str("\\t"),
            '\n' => out.push_str("\\n"),
            '\u{c}' => out.push_str("\\f"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn scalar(m: &M, out: &mut String) {
    match m {
        M::Null => out.push_str("null"),
        M::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        M::Num(n) => n.format_to_json(out).unwrap(),
        M::Str(s) => esc(s, out),
        _ => unreachable!(),
    }
}

pub fn compact(m: &M, out: &mut String) {
    match m {
        M::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                compact(x, out);
            }
            out.push(']');
        }
        M::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in sorted(v).into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                esc(k, out);
                out.push(':');
                compact(x, out);
            }
            out.push('}');
        }
        _ => scalar(m, out),
    }
}

fn nl(level: usize, out: &mut String) {
    out.push('\n');
    for _ in 0..level {
        out.push_str("  ");
    }
}

fn pretty_at(m: &M, level: usize, out: &mut String) {
    match m {
        M::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(level + 1, out);
                pretty_at(x, level + 1, out);
            }
            nl(level, out);
            out.push(']');
        }
        M::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in sorted(v).into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                nl(level + 1, out);
                esc(k, out);
                out.push_str(" : ");
                if x.is_container() {
                    nl(level + 1, out);
                }
                pretty_at(x, level + 1, out);
            }
            nl(level, out);
            out.push('}');
        }
        _ => scalar(m, out),
    }
}

pub fn text(m: &M, pretty: bool) -> String {
    let mut s = String::new();
    if pretty {
        pretty_at(m, 0, &mut s);
    } else {
        compact(m, &mut s);
    }
    s
}
