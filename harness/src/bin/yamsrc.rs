//! Input sources other than the built-in one, over the same bytes.
#[path = "../ev.rs"]
#[allow(dead_code)]
mod ev;
use crate::ev::{ev_json, err_json, for_each_input, run_iter};
use serde_json::{json, Value};
use yam_core::parsing::{Parser, SkipTabs, Source};
use yam_core::prelude::StrSource;

/// All helper methods inherited from the trait; only the buffer length is chosen.
pub struct Plain<'a> { inner: StrSource<'a>, buf: usize }
unsafe impl Source for Plain<'_> {
    unsafe fn peek_unsafe(&self, n: usize) -> u8 { self.inner.peek_checked(n).unwrap() }
    fn peek_checked(&self, n: usize) -> Option<u8> { self.inner.peek_checked(n) }
    fn peek_char(&self) -> char { self.inner.peek_char() }
    fn buf_max_len(&self) -> usize { self.buf }
    fn buf_is_empty(&self) -> bool { self.inner.buf_is_empty() }
    fn push_non_breakz_chr(&mut self, v: &mut Vec<u8>) { self.inner.push_non_breakz_chr(v) }
    fn skip(&mut self, n: usize) { self.inner.skip(n) }
    fn skip_ws_to_eol(&mut self, tabs: bool, ws: bool) -> (u32, Result<SkipTabs, &'static str>) { self.inner.skip_ws_to_eol(tabs, ws) }
}

/// Its own storage, and every helper method written anew from its documentation.
pub struct Own { data: Vec<u8>, at: usize, buf: usize }
impl Own {
    fn get(&self, n: usize) -> u8 { self.data.get(self.at + n).copied().unwrap_or(0) }
    fn run(&self, f: impl Fn(u8) -> bool) -> usize { self.data[self.at.min(self.data.len())..].iter().take_while(|b| f(**b)).count() }
}
fn blank(b: u8) -> bool { b == b' ' || b == b'\t' }
fn brk(b: u8) -> bool { b == b'\n' || b == b'\r' }
fn flow(b: u8) -> bool { b",[]{}".contains(&b) }
unsafe impl Source for Own {
    fn peekz(&self, n: usize) -> u8 { self.get(n) }
    unsafe fn peek_unsafe(&self, n: usize) -> u8 { self.data[self.at + n] }
    fn peek_checked(&self, n: usize) -> Option<u8> { self.data.get(self.at + n).copied() }
    fn peek_char(&self) -> char {
        let rest = &self.data[self.at.min(self.data.len())..];
        for n in 1..=rest.len().min(4) {
            if let Ok(s) = std::str::from_utf8(&rest[..n]) { return s.chars().next().unwrap(); }
        }
        '\u{FFFD}'
    }
    fn buf_max_len(&self) -> usize { self.buf }
    fn buf_is_empty(&self) -> bool { self.at >= self.data.len() }
    fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
        let n = self.run(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_');
        out.extend_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        n
    }
    fn push_non_breakz_chr(&mut self, v: &mut Vec<u8>) {
        let n = self.run(|b| !brk(b));
        v.extend_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
    }
    fn skip(&mut self, n: usize) { self.at += n; }
    fn skip_while_blank(&mut self) -> usize { let n = self.run(blank); self.at += n; n }
    fn skip_ws_to_eol(&mut self, tabs: bool, ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
        let mut n = 0;
        let (mut any, mut has) = (false, ws);
        loop {
            match self.get(n) {
                b' ' => has = true,
                b'\t' if tabs => any = true,
                _ => break,
            }
            n += 1;
        }
        if self.get(n) == b'#' {
            if !any && !has { self.at += n; return (n as u32, Err("comments must be separated from other tokens by whitespace")); }
            while !brk(self.get(n)) && self.get(n) != 0 { n += 1; }
        }
        self.at += n;
        (n as u32, Ok(SkipTabs::Result { any_tabs: any, has_yaml_ws: has }))
    }
    fn skip_while_non_breakz(&mut self) -> usize { let n = self.run(|b| !brk(b) && b != 0); self.at += n; n }
    fn skip_and_accumulate_to_eol(&mut self, out: &mut Vec<u8>) {
        let n = self.run(|b| !brk(b));
        out.extend_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
    }
    fn next_next_byte_is(&self, c: u8) -> bool { self.get(1) == c }
    fn next_is_three(&self, c: u8) -> bool { (0..3).all(|j| self.get(j) == c) }
    fn next_can_be_plain_scalar(&self, in_flow: bool) -> bool {
        let (c, d) = (self.get(0), self.get(1));
        if in_flow && flow(c) { return false; }
        !(c == b':' && (blank(d) || brk(d) || d == 0 || (in_flow && flow(d))))
    }
    fn next_is_document_indicator(&self) -> bool {
        let d = self.get(3);
        (self.next_is_three(b'-') || self.next_is_three(b'.')) && (blank(d) || brk(d) || d == 0)
    }
}

pub const BUFS: [usize; 9] = [2, 3, 4, 5, 8, 16, 64, 128, 1024];
/// One record: the run over the built-in source, and whether every other source gives the same.
fn main() {
    for_each_input(|mut inp| {
        let keep = inp.raw["keep"].as_u64() == Some(1);
        let x = inp.text.clone();
        let base = run_iter(StrSource::new(&x), keep, x.len());
        let mut same = 1;
        let mut how = json!([]);
        let by_str = { let mut p = Parser::new_from_str(&x).keep_tags(keep); let mut v = vec![]; let mut f: Option<Value> = None;
            if base.1[0] == "END" || base.1[0] == "ERR" {
                while let Some(r) = p.next_event() { match r { Ok((e, s)) => v.push(ev_json(&e, &s)), Err(e) => { f = Some(err_json(&e)); break; } } }
                v == base.0 && f.is_none() == (base.1[0] == "END") && f.is_none_or(|q| q == base.1)
            } else { true } };
        if !by_str { same = 0; how = json!(["new_from_str", 0]); }
        for b in BUFS {
            if run_iter(Plain { inner: StrSource::new(&x), buf: b }, keep, x.len()) != base { same = 0; how = json!(["inherited", b]); }
            if run_iter(Own { data: x.as_bytes().to_vec(), at: 0, buf: b }, keep, x.len()) != base { same = 0; how = json!(["own", b]); }
        }
        let o = inp.raw.as_object_mut().unwrap();
        o.insert("keep".into(), json!(keep as u8));
        o.insert("e".into(), Value::Array(base.0));
        o.insert("f".into(), base.1);
        o.insert("g".into(), json!(base.2));
        o.insert("same".into(), json!(same));
        o.insert("how".into(), how);
        inp.raw
    });
}
