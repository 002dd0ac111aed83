// C28 - C29: read_csv and the m! literal.
use crate::ck;
use crate::ctx::*;
use la::*;
use std::cell::RefCell;

type R = Result<(), String>;

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    // a directory of this process's own; the only files touched are the ones written here
    let d = std::env::temp_dir().join(format!("replay-csv-{}-{}", std::process::id(), std::thread::current().name().unwrap_or("x").len()));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}
fn parse(s: &str) -> i64 {
    // never fails, distinguishes every string (untrimmed blanks included)
    let mut h = 7i64;
    for b in s.bytes() {
        h = h.wrapping_mul(1000003).wrapping_add(b as i64 + 1);
    }
    h
}
fn c28(c: &mut Ctx) -> R {
    let dir = scratch();
    let file = dir.0.join("in.csv");
    let (l, f) = c.shape_l(4, 9, 4300, 300);
    let big = c.chance(60);
    let l = if big { 3000 } else { l };
    let mut rows: Vec<Vec<String>> = vec![];
    for _ in 0..l {
        let mut r = vec![];
        for _ in 0..f {
            r.push(match c.below(9) {
                0 => String::new(),
                1 => " ".to_string(),
                2 => "\u{e9} \u{20ac}".to_string(),
                3 => "a b".to_string(),
                4 => (*c.pick(&["\"x\"", "#1", "1;2", "\u{feff}9", "-", "a\u{a0}b"])).to_string(),
                5 if c.chance(40) => "long".repeat(5000),
                _ => format!("{}", c.range(-999, 999)),
            });
        }
        rows.push(r);
    }
    let ragged = l > 1 && c.chance(2);
    let mut at = 0;
    if ragged {
        at = c.below(l);
        let to = (at + 1 + c.below(l - 1)) % l;
        match c.below(5) {
            // the same number of fields altogether
            0 if f > 1 => {
                let x = rows[at].pop().unwrap();
                rows[to].push(x);
            }
            // a blank line between the others, or after them
            1 if f > 1 => rows.insert(at + 1, vec![String::new()]),
            2 if f > 1 => {
                rows[at].pop();
            }
            3 => rows[at].insert(0, "7".to_string()),
            _ => rows[at].push(["7", ""][c.below(2)].to_string()),
        }
    }
    let eol = if c.chance(3) { "\r\n" } else { "\n" };
    let last = c.chance(2);
    let mut text = String::new();
    for (i, r) in rows.iter().enumerate() {
        let line: Vec<String> = r.iter().map(|x| format!("{}{}{}", ["", "", " ", "\t", "\u{a0}", "\u{b}"][c.below(6)], x, ["", "", "  ", "\u{3000}", "\t"][c.below(5)])).collect();
        text.push_str(&line.join(","));
        // a last line that is empty needs its end-of-line to be a line at all
        if i + 1 < rows.len() || last || line.join(",").is_empty() {
            text.push_str(eol);
        }
    }
    c.note(&format!("file {:?}{}", if text.len() > 400 { &text[..text.char_indices().take(300).last().unwrap().0] } else { &text[..] }, if ragged { format!(" (line {} ragged)", at) } else { String::new() }));
    std::fs::write(&file, &text).unwrap();
    let name = file.to_str().unwrap().to_string();
    if ragged {
        ck!(panics(|| util::read_csv(&name, &parse)), "a file with lines of different length was accepted");
    } else {
        let m = util::read_csv(&name, &parse);
        ck!(m.rows() == l && m.cols() == f, "shape {}x{}, expected {}x{}", m.rows(), m.cols(), l, f);
        for i in 0..l {
            for j in 0..f {
                ck!(m.get_data()[i * f + j] == parse(rows[i][j].trim()), "element ({},{}) is not the parsed field {:?}", i, j, rows[i][j].trim());
            }
        }
    }
    // missing and empty files
    std::fs::write(dir.0.join("empty.csv"), "").unwrap();
    let empty = dir.0.join("empty.csv").to_str().unwrap().to_string();
    let missing = dir.0.join("missing.csv").to_str().unwrap().to_string();
    ck!(panics(|| util::read_csv(&empty, &parse)), "an empty file was accepted");
    ck!(panics(|| util::read_csv(&missing, &parse)), "a missing file was accepted");
    Ok(())
}

thread_local! { static SEEN: RefCell<Vec<i64>> = RefCell::new(vec![]); }
fn e(k: i64) -> i64 {
    SEEN.with(|s| s.borrow_mut().push(k));
    k * 3 + 1
}
fn lit(c: &mut Ctx, text: &str, r: usize, n: usize, f: fn() -> Matrix<i64>) -> R {
    c.note(text);
    SEEN.with(|s| s.borrow_mut().clear());
    let m = match std::panic::catch_unwind(f) {
        Ok(m) => m,
        Err(_) => return Err(format!("{}: rejected", text)),
    };
    ck!(m.rows() == r && m.cols() == n, "{}: {}x{}, expected {}x{}", text, m.rows(), m.cols(), r, n);
    let want: Vec<i64> = (0..(r * n) as i64).map(|k| k * 3 + 1).collect();
    ck!(*m.get_data() == want, "{}: {:?}, expected {:?}", text, m.get_data(), want);
    let mut seen = SEEN.with(|s| s.borrow().clone());
    seen.sort();
    ck!(seen == (0..(r * n) as i64).collect::<Vec<_>>(), "{}: expressions evaluated: {:?}", text, seen);
    Ok(())
}
fn bad(c: &mut Ctx, text: &str, f: fn() -> Matrix<i64>) -> R {
    c.note(text);
    ck!(panics(f), "{}: accepted", text);
    Ok(())
}
fn c29(c: &mut Ctx) -> R {
    match c.idx {
        0 => lit(c, "m!(e(0))", 1, 1, || m!(e(0))),
        1 => lit(c, "m!(e(0), e(1))", 1, 2, || m!(e(0), e(1))),
        2 => lit(c, "m!(e(0), e(1), e(2))", 1, 3, || m!(e(0), e(1), e(2))),
        3 => lit(c, "m!(e(0), e(1), e(2), e(3))", 1, 4, || m!(e(0), e(1), e(2), e(3))),
        4 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4))", 1, 5, || m!(e(0), e(1), e(2), e(3), e(4))),
        5 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5))", 1, 6, || m!(e(0), e(1), e(2), e(3), e(4), e(5))),
        6 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6))", 1, 7, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6))),
        7 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7))", 1, 8, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7))),
        8 => lit(c, "m!(e(0); e(1))", 2, 1, || m!(e(0); e(1))),
        9 => lit(c, "m!(e(0), e(1); e(2), e(3))", 2, 2, || m!(e(0), e(1); e(2), e(3))),
        10 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5))", 2, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5))),
        11 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7))", 2, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7))),
        12 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9))", 2, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9))),
        13 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11))", 2, 6, || m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11))),
        14 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13))", 2, 7, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13))),
        15 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15))", 2, 8, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15))),
        16 => lit(c, "m!(e(0); e(1); e(2))", 3, 1, || m!(e(0); e(1); e(2))),
        17 => lit(c, "m!(e(0), e(1); e(2), e(3); e(4), e(5))", 3, 2, || m!(e(0), e(1); e(2), e(3); e(4), e(5))),
        18 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8))", 3, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8))),
        19 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11))", 3, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11))),
        20 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14))", 3, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14))),
        21 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17))", 3, 6, || m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17))),
        22 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13); e(14), e(15), e(16), e(17), e(18), e(19), e(20))", 3, 7, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13); e(14), e(15), e(16), e(17), e(18), e(19), e(20))),
        23 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23))", 3, 8, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23))),
        24 => lit(c, "m!(e(0); e(1); e(2); e(3))", 4, 1, || m!(e(0); e(1); e(2); e(3))),
        25 => lit(c, "m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7))", 4, 2, || m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7))),
        26 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11))", 4, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11))),
        27 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15))", 4, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15))),
        28 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19))", 4, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19))),
        29 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17); e(18), e(19), e(20), e(21), e(22), e(23))", 4, 6, || m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17); e(18), e(19), e(20), e(21), e(22), e(23))),
        30 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13); e(14), e(15), e(16), e(17), e(18), e(19), e(20); e(21), e(22), e(23), e(24), e(25), e(26), e(27))", 4, 7, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13); e(14), e(15), e(16), e(17), e(18), e(19), e(20); e(21), e(22), e(23), e(24), e(25), e(26), e(27))),
        31 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31))", 4, 8, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31))),
        32 => lit(c, "m!(e(0); e(1); e(2); e(3); e(4))", 5, 1, || m!(e(0); e(1); e(2); e(3); e(4))),
        33 => lit(c, "m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9))", 5, 2, || m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9))),
        34 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14))", 5, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14))),
        35 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19))", 5, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19))),
        36 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24))", 5, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24))),
        37 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17); e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29))", 5, 6, || m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17); e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29))),
        38 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13); e(14), e(15), e(16), e(17), e(18), e(19), e(20); e(21), e(22), e(23), e(24), e(25), e(26), e(27); e(28), e(29), e(30), e(31), e(32), e(33), e(34))", 5, 7, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12), e(13); e(14), e(15), e(16), e(17), e(18), e(19), e(20); e(21), e(22), e(23), e(24), e(25), e(26), e(27); e(28), e(29), e(30), e(31), e(32), e(33), e(34))),
        39 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31); e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39))", 5, 8, || m!(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31); e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39))),
        40 => lit(c, "m!(e(0); e(1); e(2); e(3); e(4); e(5))", 6, 1, || m!(e(0); e(1); e(2); e(3); e(4); e(5))),
        41 => lit(c, "m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9); e(10), e(11))", 6, 2, || m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9); e(10), e(11))),
        42 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14); e(15), e(16), e(17))", 6, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14); e(15), e(16), e(17))),
        43 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23))", 6, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23))),
        44 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29))", 6, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29))),
        45 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17); e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29); e(30), e(31), e(32), e(33), e(34), e(35))", 6, 6, || m!(e(0), e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15), e(16), e(17); e(18), e(19), e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27), e(28), e(29); e(30), e(31), e(32), e(33), e(34), e(35))),
        46 => lit(c, "m!(e(0); e(1); e(2); e(3); e(4); e(5); e(6))", 7, 1, || m!(e(0); e(1); e(2); e(3); e(4); e(5); e(6))),
        47 => lit(c, "m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9); e(10), e(11); e(12), e(13))", 7, 2, || m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9); e(10), e(11); e(12), e(13))),
        48 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14); e(15), e(16), e(17); e(18), e(19), e(20))", 7, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14); e(15), e(16), e(17); e(18), e(19), e(20))),
        49 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27))", 7, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27))),
        50 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29); e(30), e(31), e(32), e(33), e(34))", 7, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29); e(30), e(31), e(32), e(33), e(34))),
        51 => lit(c, "m!(e(0); e(1); e(2); e(3); e(4); e(5); e(6); e(7))", 8, 1, || m!(e(0); e(1); e(2); e(3); e(4); e(5); e(6); e(7))),
        52 => lit(c, "m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9); e(10), e(11); e(12), e(13); e(14), e(15))", 8, 2, || m!(e(0), e(1); e(2), e(3); e(4), e(5); e(6), e(7); e(8), e(9); e(10), e(11); e(12), e(13); e(14), e(15))),
        53 => lit(c, "m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14); e(15), e(16), e(17); e(18), e(19), e(20); e(21), e(22), e(23))", 8, 3, || m!(e(0), e(1), e(2); e(3), e(4), e(5); e(6), e(7), e(8); e(9), e(10), e(11); e(12), e(13), e(14); e(15), e(16), e(17); e(18), e(19), e(20); e(21), e(22), e(23))),
        54 => lit(c, "m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27); e(28), e(29), e(30), e(31))", 8, 4, || m!(e(0), e(1), e(2), e(3); e(4), e(5), e(6), e(7); e(8), e(9), e(10), e(11); e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23); e(24), e(25), e(26), e(27); e(28), e(29), e(30), e(31))),
        55 => lit(c, "m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29); e(30), e(31), e(32), e(33), e(34); e(35), e(36), e(37), e(38), e(39))", 8, 5, || m!(e(0), e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8), e(9); e(10), e(11), e(12), e(13), e(14); e(15), e(16), e(17), e(18), e(19); e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29); e(30), e(31), e(32), e(33), e(34); e(35), e(36), e(37), e(38), e(39))),
        56 => bad(c, "m!(e(0); e(0), e(1))", || m!(e(0); e(0), e(1))),
        57 => bad(c, "m!(e(0); e(0), e(1), e(2))", || m!(e(0); e(0), e(1), e(2))),
        58 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3))", || m!(e(0); e(0), e(1), e(2), e(3))),
        59 => bad(c, "m!(e(0), e(1); e(0))", || m!(e(0), e(1); e(0))),
        60 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1); e(0), e(1), e(2))),
        61 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1), e(2), e(3))),
        62 => bad(c, "m!(e(0), e(1), e(2); e(0))", || m!(e(0), e(1), e(2); e(0))),
        63 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1))", || m!(e(0), e(1), e(2); e(0), e(1))),
        64 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        65 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0))", || m!(e(0), e(1), e(2), e(3); e(0))),
        66 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0), e(1), e(2), e(3); e(0), e(1))),
        67 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        68 => bad(c, "m!(e(0); e(0); e(0), e(1))", || m!(e(0); e(0); e(0), e(1))),
        69 => bad(c, "m!(e(0); e(0); e(0), e(1), e(2))", || m!(e(0); e(0); e(0), e(1), e(2))),
        70 => bad(c, "m!(e(0); e(0); e(0), e(1), e(2), e(3))", || m!(e(0); e(0); e(0), e(1), e(2), e(3))),
        71 => bad(c, "m!(e(0); e(0), e(1); e(0))", || m!(e(0); e(0), e(1); e(0))),
        72 => bad(c, "m!(e(0); e(0), e(1); e(0), e(1))", || m!(e(0); e(0), e(1); e(0), e(1))),
        73 => bad(c, "m!(e(0); e(0), e(1); e(0), e(1), e(2))", || m!(e(0); e(0), e(1); e(0), e(1), e(2))),
        74 => bad(c, "m!(e(0); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0); e(0), e(1); e(0), e(1), e(2), e(3))),
        75 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0))", || m!(e(0); e(0), e(1), e(2); e(0))),
        76 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0), e(1))", || m!(e(0); e(0), e(1), e(2); e(0), e(1))),
        77 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2))", || m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2))),
        78 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        79 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0))", || m!(e(0); e(0), e(1), e(2), e(3); e(0))),
        80 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1))),
        81 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        82 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))", || m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))),
        83 => bad(c, "m!(e(0), e(1); e(0); e(0))", || m!(e(0), e(1); e(0); e(0))),
        84 => bad(c, "m!(e(0), e(1); e(0); e(0), e(1))", || m!(e(0), e(1); e(0); e(0), e(1))),
        85 => bad(c, "m!(e(0), e(1); e(0); e(0), e(1), e(2))", || m!(e(0), e(1); e(0); e(0), e(1), e(2))),
        86 => bad(c, "m!(e(0), e(1); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0); e(0), e(1), e(2), e(3))),
        87 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0))", || m!(e(0), e(1); e(0), e(1); e(0))),
        88 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2))),
        89 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))),
        90 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0))", || m!(e(0), e(1); e(0), e(1), e(2); e(0))),
        91 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1))", || m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1))),
        92 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2))", || m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2))),
        93 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        94 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0))),
        95 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1))),
        96 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        97 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))),
        98 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0))", || m!(e(0), e(1), e(2); e(0); e(0))),
        99 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0), e(1))", || m!(e(0), e(1), e(2); e(0); e(0), e(1))),
        100 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2))", || m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2))),
        101 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2), e(3))),
        102 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0))", || m!(e(0), e(1), e(2); e(0), e(1); e(0))),
        103 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1))", || m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1))),
        104 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2))),
        105 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2), e(3))),
        106 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0))),
        107 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1))", || m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1))),
        108 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        109 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0))),
        110 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1))),
        111 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        112 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))),
        113 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0))", || m!(e(0), e(1), e(2), e(3); e(0); e(0))),
        114 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1))", || m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1))),
        115 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2))),
        116 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2), e(3))),
        117 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0))),
        118 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1))),
        119 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1), e(2))),
        120 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1), e(2), e(3))),
        121 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0))),
        122 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1))),
        123 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1), e(2))),
        124 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        125 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0))),
        126 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1))),
        127 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        128 => bad(c, "m!(e(0); e(0); e(0); e(0), e(1))", || m!(e(0); e(0); e(0); e(0), e(1))),
        129 => bad(c, "m!(e(0); e(0); e(0), e(1); e(0), e(1))", || m!(e(0); e(0); e(0), e(1); e(0), e(1))),
        130 => bad(c, "m!(e(0); e(0); e(0), e(1), e(2); e(0), e(1))", || m!(e(0); e(0); e(0), e(1), e(2); e(0), e(1))),
        131 => bad(c, "m!(e(0); e(0); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0); e(0); e(0), e(1), e(2), e(3); e(0), e(1))),
        132 => bad(c, "m!(e(0); e(0), e(1); e(0); e(0), e(1))", || m!(e(0); e(0), e(1); e(0); e(0), e(1))),
        133 => bad(c, "m!(e(0); e(0), e(1); e(0), e(1); e(0), e(1))", || m!(e(0); e(0), e(1); e(0), e(1); e(0), e(1))),
        134 => bad(c, "m!(e(0); e(0), e(1); e(0), e(1), e(2); e(0), e(1))", || m!(e(0); e(0), e(1); e(0), e(1), e(2); e(0), e(1))),
        135 => bad(c, "m!(e(0); e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0); e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1))),
        136 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0); e(0), e(1))", || m!(e(0); e(0), e(1), e(2); e(0); e(0), e(1))),
        137 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0), e(1); e(0), e(1))", || m!(e(0); e(0), e(1), e(2); e(0), e(1); e(0), e(1))),
        138 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1))", || m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1))),
        139 => bad(c, "m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0); e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1))),
        140 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0); e(0), e(1))", || m!(e(0); e(0), e(1), e(2), e(3); e(0); e(0), e(1))),
        141 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1))", || m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1))),
        142 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1))", || m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1))),
        143 => bad(c, "m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1))),
        144 => bad(c, "m!(e(0), e(1); e(0); e(0); e(0), e(1), e(2))", || m!(e(0), e(1); e(0); e(0); e(0), e(1), e(2))),
        145 => bad(c, "m!(e(0), e(1); e(0); e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1); e(0); e(0), e(1); e(0), e(1), e(2))),
        146 => bad(c, "m!(e(0), e(1); e(0); e(0), e(1), e(2); e(0), e(1), e(2))", || m!(e(0), e(1); e(0); e(0), e(1), e(2); e(0), e(1), e(2))),
        147 => bad(c, "m!(e(0), e(1); e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0), e(1); e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        148 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0); e(0), e(1), e(2))", || m!(e(0), e(1); e(0), e(1); e(0); e(0), e(1), e(2))),
        149 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))),
        150 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        151 => bad(c, "m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))),
        152 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1), e(2); e(0); e(0), e(1), e(2), e(3))),
        153 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2), e(3))),
        154 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        155 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0); e(0))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0); e(0))),
        156 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1); e(0))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1); e(0))),
        157 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0))),
        158 => bad(c, "m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1))", || m!(e(0), e(1); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1))),
        159 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0); e(0); e(0), e(1), e(2), e(3))),
        160 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0); e(0), e(1); e(0), e(1), e(2), e(3))),
        161 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        162 => bad(c, "m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3))),
        163 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1); e(0); e(0), e(1), e(2), e(3))),
        164 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))),
        165 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2); e(0), e(1), e(2), e(3))),
        166 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0); e(0))),
        167 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1); e(0))),
        168 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1), e(2); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2); e(0), e(1), e(2); e(0))),
        169 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0); e(0))),
        170 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1); e(0))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1); e(0))),
        171 => bad(c, "m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1))", || m!(e(0), e(1), e(2); e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1))),
        172 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0); e(0); e(0), e(1), e(2))),
        173 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1); e(0), e(1), e(2))),
        174 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2); e(0), e(1), e(2))),
        175 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0); e(0), e(1), e(2), e(3); e(0), e(1), e(2))),
        176 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0); e(0), e(1), e(2), e(3))),
        177 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1); e(0), e(1), e(2), e(3))),
        178 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1), e(2), e(3); e(0))", || m!(e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1), e(2), e(3); e(0))),
        179 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0); e(0), e(1), e(2))),
        180 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2); e(0), e(1); e(0), e(1), e(2))),
        181 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0); e(0))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0); e(0))),
        182 => bad(c, "m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1))", || m!(e(0), e(1), e(2), e(3); e(0), e(1), e(2), e(3); e(0), e(1); e(0), e(1))),
        _ => {
            c.ended = true;
            Ok(())
        }
    }
}

// literals of other element types and of compound expressions
fn c29types(c: &mut Ctx) -> R {
    c.note("other literals");
    let a = m!(1.5, -2.5; 1.0 + 2.0 * 3.0, -(4.0f64));
    ck!(a.rows() == 2 && a.cols() == 2 && *a.get_data() == vec![1.5, -2.5, 7.0, -4.0], "{:?}", a.get_data());
    let b = m!(1u8; 2; 3);
    ck!(b.rows() == 3 && b.cols() == 1 && *b.get_data() == vec![1u8, 2, 3], "{:?}", b.get_data());
    let t = m!((1, 'a'), (2, 'b'); if a.rows() == 2 { (3, 'c') } else { (0, 'z') }, { let k = 4; (k, 'd') });
    ck!(t.rows() == 2 && t.cols() == 2 && *t.get_data() == vec![(1, 'a'), (2, 'b'), (3, 'c'), (4, 'd')], "{:?}", t.get_data());
    let n = m!(vec![1, 2].len(), [7usize, 8][1]);
    ck!(n.rows() == 1 && n.cols() == 2 && *n.get_data() == vec![2usize, 8], "{:?}", n.get_data());
    Ok(())
}

pub fn subs(v: &mut Vec<Sub>) {
    v.push(sub("C28", "csv", c28, 150));
    v.push(Sub { prop: "C29", name: "literals", f: c29, min: 183, limit: 183 });
    v.push(Sub { prop: "C29", name: "types", f: c29types, min: 1, limit: 1 });
}
