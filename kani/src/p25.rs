use crate::nd::*;
use rowcol::prelude::*;
use std::fmt::{Display, Formatter, Result, Write};

/// An element whose Display form is one chosen text.
#[derive(Clone, Debug)]
struct Txt(String);
impl Display for Txt { fn fmt(&self, f: &mut Formatter) -> Result { f.write_str(&self.0) } }

/// Lines an entry may have, with their widths.
const POOL: [(&str, usize); 9] = [("", 0), ("7", 1), ("-3", 2), ("abc", 3), ("\u{3042}", 2), ("e\u{301}", 1), (" x ", 3), ("\u{00b5}m", 2), ("long entry", 10)];
/// The lines of one entry, in order, and the text made of them.
#[derive(Clone)]
struct Cell { lines: Vec<(&'static str, usize)>, text: String }
fn cell() -> Cell {
    let n = match below(8) { 0 => 0, 1..=4 => 1, 5 | 6 => 2, _ => 3 };
    let lines: Vec<_> = (0..n).map(|_| POOL[below(POOL.len())]).collect();
    let crlf = below(8) == 0;
    let end = if crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    for (k, l) in lines.iter().enumerate() {
        text.push_str(l.0);
        // a last line is a line also without a line break, unless it is empty
        if k + 1 < n || l.0.is_empty() || below(3) == 0 { text.push_str(end) }
    }
    Cell { lines, text }
}
fn blanks(n: usize) -> String { std::iter::repeat(' ').take(n).collect() }
/// The stated layout, from the cells' lines and widths.
fn grid(c: &[Vec<Cell>], cols: usize) -> String {
    let width = |x: &Cell| x.lines.iter().map(|l| l.1).fold(0, |a, b| if a < b { b } else { a });
    let colw: Vec<usize> = (0..cols).map(|j| c.iter().map(|r| width(&r[j])).fold(0, |a, b| if a < b { b } else { a })).collect();
    let mut out = String::new();
    for (i, r) in c.iter().enumerate() {
        let h = r.iter().map(|x| x.lines.len()).fold(0, |a, b| if a < b { b } else { a });
        for n in 0..h {
            let (l, e) = if i == 0 && n == 0 { ("\u{23a1}", "\u{23a4}\n") } else if i + 1 == c.len() && n + 1 == h { ("\u{23a3}", "\u{23a6}") } else { ("\u{23a2}", "\u{23a5}\n") };
            let cells: Vec<String> = (0..cols).map(|j| {
                let left = (colw[j] - width(&r[j])) / 2;
                let (t, w) = r[j].lines.get(n).cloned().unwrap_or(("", 0));
                format!("{}{}{}", blanks(left), t, blanks(colw[j] - left - w))
            }).collect();
            out.push_str(&format!("{}{}{}", l, cells.join(" "), e));
        }
    }
    out
}
/// A writer that takes a limited number of bytes.
struct Tight { got: String, room: usize }
impl Write for Tight {
    fn write_str(&mut self, s: &str) -> Result { if self.got.len() + s.len() > self.room { return Err(std::fmt::Error) } self.got.push_str(s); Ok(()) }
}
#[cfg(not(kani))]
macro_rules! display {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn display [$unw] {
                let cells: Vec<Vec<Cell>> = (0..$r).map(|_| (0..$c).map(|_| cell()).collect()).collect();
                let m = Matrix::<Txt, $R, $C>::generate(|(i, j)| Txt(cells[i][j].text.clone()));
                let want = grid(&cells, $c);
                assert!(format!("{}", m) == want, "layout");
                // a writer that fails is reported, and what it took is a prefix
                if !want.is_empty() {
                    let mut w = Tight { got: String::new(), room: below(want.len()) };
                    assert!(write!(w, "{}", m).is_err(), "writer's error");
                    assert!(want.starts_with(&w.got), "prefix");
                }
                let mut w = Tight { got: String::new(), room: want.len() };
                assert!(write!(w, "{}", m).is_ok(), "writer has room");
                assert!(w.got == want);
            }
        }
    };
}
/// Matrices without rows or without columns: nothing is written.
struct Count(usize);
impl Write for Count { fn write_str(&mut self, s: &str) -> Result { self.0 += s.len(); Ok(()) } }
struct No;
impl Display for No { fn fmt(&self, _: &mut Formatter) -> Result { Ok(()) } }
macro_rules! empty {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn empty [$unw] {
                let m = Matrix::<No, $R, $C>::generate(|_| No);
                let mut w = Count(0);
                assert!(write!(w, "{}", m).is_ok());
                assert!(w.0 == 0);
            }
        }
    };
}
pub mod empty {
    use super::*;
    shapes! { empty; m0_0(U0, U0, 0, 0, 3) m0_3(U0, U3, 0, 3, 5) m2_0(U2, U0, 2, 0, 5) }
}
pub fn table() -> crate::Table {
    let t = empty::table();
    t
}
wide! { display: wide_mats display; }
