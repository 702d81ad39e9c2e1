//! Properties of the graphical console.

use crate::raster::*;
use crate::rng::Rng;
use crate::runner::*;
use endbasic_std::console::{CharsXY, ClearType, PixelsXY, RGB};
use endbasic_std::gfx::lcd::fonts::Font;
use std::collections::BTreeSet;

fn p(x: i32, y: i32) -> PixelsXY {
    PixelsXY::new(x as i16, y as i16)
}


/// The index that a pixel of the panel must be reported as.
fn index_of(c: RGB, deep: bool) -> Option<u8> {
    if deep {
        return (0..=255u8).find(|i| palette(*i) == c);
    }
    (0..=255u8).find(|i| shown(*i, true) == c)
}

// S10 ------------------------------------------------------------------------------------------

type P = (i32, i32);

/// What a drawing operation has to paint: at least one point of every group, and nothing that is
/// not allowed.
#[derive(Default)]
struct Spec {
    groups: Vec<Vec<P>>,
    may: BTreeSet<P>,
}

impl Spec {
    fn must(&mut self, q: P) {
        self.may.insert(q);
        self.groups.push(vec![q]);
    }

    /// All the points that lie at most half a pixel away from the segment along its minor axis.
    fn line(&mut self, a: P, b: P, w: i32, h: i32) {
        let (dx, dy) = ((b.0 - a.0) as i64, (b.1 - a.1) as i64);
        let xmajor = dy.abs() < dx.abs();
        let (a, b, w, _h) = if xmajor { (a, b, w, h) } else { ((a.1, a.0), (b.1, b.0), h, w) };
        let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
        let (dx, dy) = ((b.0 - a.0) as i64, (b.1 - a.1) as i64);
        for x in a.0.max(0)..=b.0.min(w - 1) {
            let mut ys = vec![];
            if dx == 0 {
                ys.push(a.1);
            } else {
                // Candidates satisfy 2 * |y - ideal| <= 1.
                let num = (x - a.0) as i64 * dy; // over dx
                let base = a.1 as i64 + num.div_euclid(dx);
                for y in [base, base + 1] {
                    if 2 * ((y - a.1 as i64) * dx - num).abs() <= dx {
                        ys.push(y as i32);
                    }
                }
            }
            let g: Vec<P> = ys.iter().map(|y| if xmajor { (x, *y) } else { (*y, x) }).collect();
            self.may.extend(g.iter().copied());
            self.groups.push(g);
        }
    }

    /// The even-odd interior of a polygon, except for the points too close to its edges.
    fn interior(&mut self, v: &[P], w: i32, h: i32) {
        for y in 0..h {
            for x in 0..w {
                let mut near = false;
                let mut inside = false;
                for i in 0..v.len() {
                    let (a, b) = (v[i], v[(i + 1) % v.len()]);
                    if dist2(a, b, (x, y)) <= 1.5 * 1.5 {
                        near = true;
                        break;
                    }
                    let (ay, by) = (a.1 as f64, b.1 as f64);
                    let (fx, fy) = (x as f64, y as f64 + 0.0);
                    if (ay > fy) != (by > fy) {
                        let t = a.0 as f64 + (fy - ay) * (b.0 as f64 - a.0 as f64) / (by - ay);
                        if fx < t {
                            inside = !inside;
                        }
                    }
                }
                if near {
                    self.may.insert((x, y));
                } else if inside {
                    self.must((x, y));
                }
            }
        }
    }

    fn circle(&mut self, c: P, r: i64, filled: bool, w: i32, h: i32) {
        for y in 0..h {
            for x in 0..w {
                let (dx, dy) = ((x - c.0) as i64, (y - c.1) as i64);
                let d2 = dx * dx + dy * dy;
                if d2 > r * r {
                    continue;
                }
                if filled {
                    if d2 <= (r - 2).max(0) * (r - 2).max(0) {
                        self.must((x, y));
                    } else {
                        self.may.insert((x, y));
                    }
                } else if d2 >= (r - 2) * (r - 2) {
                    self.may.insert((x, y));
                }
            }
        }
        // The outline is complete: every row (and column) of its upper (and left) arcs has a point.
        let n = ((r - 1) as f64 * 0.7) as i64;
        for o in -n..=n {
            let ideal = (((r - 1) * (r - 1) - o * o) as f64).sqrt();
            let (lo, hi) = ((ideal - 1.0).floor() as i64, (ideal + 1.0).ceil() as i64);
            for s in [-1, 1] {
                let col: Vec<P> =
                    (lo..=hi).map(|k| ((c.0 as i64 + o) as i32, (c.1 as i64 + s * k) as i32)).collect();
                let row: Vec<P> =
                    (lo..=hi).map(|k| ((c.0 as i64 + s * k) as i32, (c.1 as i64 + o) as i32)).collect();
                self.groups.push(col);
                self.groups.push(row);
            }
        }
    }
}

/// Squared distance from a point to a segment.
fn dist2(a: P, b: P, q: P) -> f64 {
    let (ax, ay, bx, by, qx, qy) =
        (a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64, q.0 as f64, q.1 as f64);
    let (dx, dy) = (bx - ax, by - ay);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((qx - ax) * dx + (qy - ay) * dy) / l).clamp(0.0, 1.0) };
    let (ex, ey) = (ax + t * dx - qx, ay + t * dy - qy);
    ex * ex + ey * ey
}

fn coord(r: &mut Rng, n: i32) -> i32 {
    match r.below(24) {
        0 => *r.pick(&[i16::MIN as i32, i16::MAX as i32, i16::MIN as i32 + 1, i16::MAX as i32 - 1]),
        1 => r.range(-32768, 32767) as i32,
        2..=5 => r.range(-(n as i64), 2 * n as i64) as i32,
        6 | 7 => *r.pick(&[-1, 0, n - 1, n]),
        _ => r.range(0, n as i64 - 1) as i32,
    }
}

fn s10_case(c: &mut Case) -> R {
    let font: &'static Font = *c.rng.pick(&FONTS);
    let w = c.rng.range(font.glyph_size.width as i64 * 2, 60) as usize;
    let h = c.rng.range(font.glyph_size.height as i64 * 2, 48) as usize;
    let deep = c.rng.bool();
    // The configured default color, used until a program picks another one or goes back to it.
    let def = if c.rng.bool() { Some(c.rng.below(17) as u8) } else { None };
    let g = console(w, h, font, deep, def, None);
    let con = g.con.clone();
    let con = &mut *con.borrow_mut();
    con.hide_cursor().unwrap();
    let (w, h) = (w as i32, h as i32);
    let mut log = format!("panel {}x{} {} {:?}\n", w, h, if deep { "888" } else { "565" }, def);
    // What the panel has to show once everything is synchronized.
    let mut img: Vec<RGB> = g.panel.borrow().px.clone();
    let mut sync = true;
    let mut fg: u8 = def.unwrap_or(7);
    let n = c.rng.few(14) + 1;
    for _ in 0..n {
        let before = g.panel.borrow().clone();
        let mut spec = Spec::default();
        let mut ok = true;
        let r = &mut c.rng;
        let (a, mut b, mut d) = (
            (coord(r, w), coord(r, h)),
            (coord(r, w), coord(r, h)),
            (coord(r, w), coord(r, h)),
        );
        let k = r.below(15);
        // Flood something that was painted before.
        let a = if matches!(k, 3 | 4) && r.bool() {
            let bg = img[0];
            let i = r.below(img.len());
            match (i..img.len()).chain(0..i).find(|j| img[*j] != bg) {
                Some(j) => (j as i32 % w, j as i32 / w),
                None => a,
            }
        } else {
            a
        };
        if k == 12 && r.chance(1, 20) {
            // A sliver that spans the whole coordinate space.
            b = (-1 - a.0 + r.range(0, 2) as i32, -1 - a.1);
            b = (b.0.clamp(-32768, 32767), b.1);
            d = ((b.0 + 1).min(32767), b.1);
        }
        let big = |v: &[P]| {
            let x: Vec<i64> = v.iter().map(|q| q.0 as i64).collect();
            let y: Vec<i64> = v.iter().map(|q| q.1 as i64).collect();
            let span = |v: &[i64]| v.iter().max().unwrap_or(&0) - v.iter().min().unwrap_or(&0);
            span(&x) * span(&y)
        };
        let area = (b.0 - a.0) as i64 * (d.1 - a.1) as i64 - (b.1 - a.1) as i64 * (d.0 - a.0) as i64;
        let near = |q: P| (q.0.clamp(-300, 300), q.1.clamp(-300, 300));
        let (a, b, d) = if k == 12 && area.abs() > 300_000 { (near(a), near(b), near(d)) } else { (a, b, d) };
        let rad = match r.below(8) {
            0 => r.below(3) as i64,
            1 => *r.pick(&[16383, 16384, 32767, 32768, 65535, 2000, 500, 200]),
            _ => r.below(40) as i64,
        };
        let mut pts: Vec<P> = (0..r.few(8)).map(|_| (coord(r, w), coord(r, h))).collect();
        if k == 14 && big(&pts) > 300_000 {
            pts = pts.into_iter().map(near).collect();
        }
        let rad = if k == 10 && rad > 300 && rad <= 16383 { rad % 300 } else { rad };
        if r.chance(1, 6) && !pts.is_empty() {
            let q = pts[0];
            for x in pts.iter_mut() {
                *x = q;
            }
        }
        let col = match r.below(4) {
            0 => Some(r.below(256) as u8),
            1 if r.chance(1, 2) => None,
            2 => Some(*r.pick(&[7, 7, 0, 15, def.unwrap_or(1)])),
            _ => Some(r.below(17) as u8),
        };
        let toggle = r.chance(1, 2);
        let line = match k {
            0 => format!("color {:?}", col),
            1 => format!("sync {}", toggle),
            2 => "sync".to_owned(),
            3 | 4 => format!("fill {:?}", a),
            5 => format!("pixel {:?}", a),
            6 => format!("line {:?} {:?}", a, b),
            7 => format!("rect {:?} {:?}", a, b),
            8 => format!("rectf {:?} {:?}", a, b),
            9 => format!("circle {:?} {}", a, rad),
            10 => format!("circlef {:?} {}", a, rad),
            11 => format!("tri {:?} {:?} {:?}", a, b, d),
            12 => format!("trif {:?} {:?} {:?}", a, b, d),
            13 => format!("poly {:?}", pts),
            _ => format!("polyf {:?}", pts),
        };
        log.push_str(&line);
        log.push('\n');
        set_input(&log);
        let fail = |what: &str, extra: String| -> R { Err(viol(what, format!("{}--- {}", log, extra))) };
        let vec: Vec<PixelsXY> = pts.iter().map(|q| p(q.0, q.1)).collect();
        let mut exact: Option<BTreeSet<P>> = None;
        let flat = |a: P, b: P, d: P| {
            (b.0 - a.0) as i64 * (d.1 - a.1) as i64 == (b.1 - a.1) as i64 * (d.0 - a.0) as i64
        };
        let res = match k {
            0 => {
                fg = col.or(def).unwrap_or(7);
                con.set_color(col, None)
            }
            1 => {
                let prev = con.set_sync(toggle);
                if let Ok(x) = prev
                    && x != sync
                {
                    return fail("SYNC does not report the previous state", format!("{}", x));
                }
                sync = toggle;
                if toggle {
                    let shown = g.panel.borrow().px.clone();
                    if shown != img {
                        return fail("enabling sync does not update the panel", String::new());
                    }
                }
                prev.map(|_| ())
            }
            2 => {
                let x = con.sync_now();
                if g.panel.borrow().px != img {
                    return fail("explicit sync does not update the panel", String::new());
                }
                x
            }
            3 | 4 => {
                // 4-connected region of the same color as the seed.
                let mut set = BTreeSet::new();
                if a.0 >= 0 && a.1 >= 0 && a.0 < w && a.1 < h {
                    let seed = img[(a.1 * w + a.0) as usize];
                    if index_of(seed, deep) != index_of(shown(fg, !deep), deep) {
                        let mut q = vec![a];
                        while let Some(x) = q.pop() {
                            if x.0 < 0
                                || x.1 < 0
                                || x.0 >= w
                                || x.1 >= h
                                || set.contains(&x)
                                || img[(x.1 * w + x.0) as usize] != seed
                            {
                                continue;
                            }
                            set.insert(x);
                            for (i, j) in [(0, 1), (1, 0), (0, -1), (-1, 0)] {
                                q.push((x.0 + i, x.1 + j));
                            }
                        }
                    }
                }
                c.obs.counts.entry("pixels filled by flooding".into()).and_modify(|n| *n += set.len() as u64).or_insert(set.len() as u64);
                exact = Some(set);
                con.bucket_fill(p(a.0, a.1))
            }
            5 => {
                exact = Some([a].into());
                con.draw_pixel(p(a.0, a.1))
            }
            6 => {
                spec.line(a, b, w, h);
                con.draw_line(p(a.0, a.1), p(b.0, b.1))
            }
            7 | 8 => {
                let (x1, x2) = (a.0.min(b.0), a.0.max(b.0));
                let (y1, y2) = (a.1.min(b.1), a.1.max(b.1));
                if x1 == x2 || y1 == y2 {
                    spec.line(a, b, w, h);
                } else {
                    let mut set = BTreeSet::new();
                    for y in y1.max(0)..y2.min(h) {
                        for x in x1.max(0)..x2.min(w) {
                            if k == 8 || x == x1 || x == x2 - 1 || y == y1 || y == y2 - 1 {
                                set.insert((x, y));
                            }
                        }
                    }
                    exact = Some(set);
                }
                if k == 7 {
                    con.draw_rect(p(a.0, a.1), p(b.0, b.1))
                } else {
                    con.draw_rect_filled(p(a.0, a.1), p(b.0, b.1))
                }
            }
            9 | 10 => {
                match rad {
                    0 => exact = Some(BTreeSet::new()),
                    1 => exact = Some([a].into()),
                    r if r > 16383 => {
                        ok = false;
                        exact = Some(BTreeSet::new());
                    }
                    r => spec.circle(a, r, k == 10, w, h),
                }
                if k == 9 {
                    con.draw_circle(p(a.0, a.1), rad as u16)
                } else {
                    con.draw_circle_filled(p(a.0, a.1), rad as u16)
                }
            }
            11 | 12 => {
                if flat(a, b, d) {
                    exact = Some(BTreeSet::new());
                } else {
                    for (x, y) in [(a, b), (b, d), (d, a)] {
                        spec.line(x, y, w, h);
                    }
                    if k == 12 {
                        spec.interior(&[a, b, d], w, h);
                    }
                }
                if k == 11 {
                    con.draw_tri(p(a.0, a.1), p(b.0, b.1), p(d.0, d.1))
                } else {
                    con.draw_tri_filled(p(a.0, a.1), p(b.0, b.1), p(d.0, d.1))
                }
            }
            _ => {
                match pts.len() {
                    0 => exact = Some(BTreeSet::new()),
                    1 => exact = Some([pts[0]].into()),
                    2 => spec.line(pts[0], pts[1], w, h),
                    3 if flat(pts[0], pts[1], pts[2]) => exact = Some(BTreeSet::new()),
                    _ if pts.iter().all(|x| *x == pts[0]) => exact = Some(BTreeSet::new()),
                    n => {
                        for i in 0..n {
                            spec.line(pts[i], pts[(i + 1) % n], w, h);
                        }
                        if k == 14 {
                            spec.interior(&pts, w, h);
                        }
                    }
                }
                if k == 13 { con.draw_poly(&vec) } else { con.draw_poly_filled(&vec) }
            }
        };
        if res.is_ok() != ok {
            return fail("a drawing operation fails or succeeds unexpectedly", format!("{:?}", res));
        }
        c.obs.counts.entry(line.split(' ').next().unwrap().to_owned()).and_modify(|n| *n += 1).or_insert(1);
        // Observe the frame buffer through the panel.
        if !sync {
            if k > 2 && *g.panel.borrow() != before {
                return fail("the panel changes while synchronization is off", String::new());
            }
            con.sync_now().unwrap();
        }
        let now = g.panel.borrow().clone();
        if k > 2 {
            let ink = shown(fg, !deep);
            let mut npaint = 0u64;
            for y in 0..h {
                for x in 0..w {
                    let o = (y * w + x) as usize;
                    let (was, is) = (img[o], now.px[o]);
                    let painted = was != is;
                    if painted && is != ink {
                        return fail("a pixel gets a color other than the selected one", format!("{},{}: {:?}", x, y, is));
                    }
                    let allowed = match &exact {
                        Some(s) => s.contains(&(x, y)),
                        None => spec.may.contains(&(x, y)),
                    };
                    if painted && !allowed {
                        return fail("a pixel outside of the shape is painted", format!("{},{}", x, y));
                    }
                    if allowed && exact.is_some() && is != ink {
                        return fail("a pixel of the shape is not painted", format!("{},{}", x, y));
                    }
                    npaint += painted as u64;
                }
            }
            if exact.is_none() {
                for grp in &spec.groups {
                    if grp.iter().any(|q| q.0 < 0 || q.1 < 0 || q.0 >= w || q.1 >= h) {
                        continue;
                    }
                    if !grp.iter().any(|q| now.px[(q.1 * w + q.0) as usize] == ink) {
                        return fail("part of the shape is not painted", format!("{:?}", grp));
                    }
                }
            }
            c.obs.counts.entry("pixels painted".into()).and_modify(|n| *n += npaint).or_insert(npaint);
        }
        img = now.px.clone();
        // Any pixel reads back as what is shown.
        for _ in 0..8 {
            let q = (coord(&mut c.rng, w), coord(&mut c.rng, h));
            let want = if q.0 < 0 || q.1 < 0 || q.0 >= w || q.1 >= h {
                None
            } else {
                index_of(img[(q.1 * w + q.0) as usize], deep)
            };
            let got = con.peek_pixel(p(q.0, q.1)).unwrap();
            if got != want {
                return fail("a pixel reads back as a different color", format!("{:?}: {:?} {:?}", q, got, want));
            }
        }
    }
    c.distinct(&img);
    c.sample(|| log.clone());
    Ok(())
}

// S11 ------------------------------------------------------------------------------------------

struct Model {
    w: usize,
    h: usize,
    font: &'static Font,
    cols: usize,
    rows: usize,
    fb: Vec<RGB>,
    x: usize,
    y: usize,
    fg: Option<u8>,
    bg: Option<u8>,
    dfg: u8,
    dbg: u8,
    visible: bool,
    /// Cursor as drawn: position and color.
    drawn: Option<(usize, usize, RGB)>,
    alt: Option<(Vec<RGB>, usize, usize, Option<u8>, Option<u8>)>,
    deep: bool,
}

impl Model {
    fn ink(&self) -> RGB {
        shown(self.fg.unwrap_or(self.dfg), !self.deep)
    }
    fn paper(&self) -> RGB {
        shown(self.bg.unwrap_or(self.dbg), !self.deep)
    }
    fn rect(&mut self, x: usize, y: usize, w: usize, h: usize, c: RGB) {
        for j in y..(y + h).min(self.h) {
            for i in x..(x + w).min(self.w) {
                self.fb[j * self.w + i] = c;
            }
        }
    }
    fn cell(&mut self, ch: char) {
        let (gw, gh) = (self.font.glyph_size.width, self.font.glyph_size.height);
        let (px, py) = (self.x * gw, self.y * gh);
        let (ink, paper) = (self.ink(), self.paper());
        self.rect(px, py, gw, gh, paper);
        let ch = if (' '..='~').contains(&ch) { ch } else { '?' };
        let o = (ch as usize - 32) * gh * self.font.stride;
        for j in 0..gh {
            for i in 0..gw {
                let byte = self.font.data[o + j * self.font.stride + i / 8];
                if byte & (0x80 >> (i % 8)) != 0 {
                    self.fb[(py + j) * self.w + px + i] = ink;
                }
            }
        }
        self.x += 1;
    }
    fn newline(&mut self, c: &mut u64) {
        self.x = 0;
        if self.y + 1 < self.rows {
            self.y += 1;
            return;
        }
        *c += 1;
        let gh = self.font.glyph_size.height;
        let th = self.rows * gh;
        self.fb.copy_within(gh * self.w..th * self.w, 0);
        let paper = self.paper();
        self.rect(0, th - gh, self.w, self.h - (th - gh), paper);
    }
    fn write(&mut self, s: &str, c: &mut u64) {
        for ch in s.chars() {
            if self.x == self.cols {
                self.newline(c);
            }
            self.cell(if ch.is_control() { ' ' } else { ch });
        }
    }
    fn cursor(&mut self) {
        // There is no cell to show the cursor at right after filling a line.
        self.drawn = if self.visible && self.x < self.cols { Some((self.x, self.y, self.ink())) } else { None };
    }
    fn display(&self) -> Vec<RGB> {
        let mut v = self.fb.clone();
        if let Some((x, y, c)) = self.drawn {
            let (gw, gh) = (self.font.glyph_size.width, self.font.glyph_size.height);
            for j in 0..gh {
                for i in 0..gw {
                    v[(y * gh + j) * self.w + x * gw + i] = c;
                }
            }
        }
        v
    }
}

fn piece(r: &mut Rng, cols: usize) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => cols,
        2 => cols - 1,
        3 => cols + 1,
        4 => r.below(3 * cols),
        _ => r.below(8),
    };
    (0..n)
        .map(|_| match r.below(20) {
            0 => 'é',
            1 => '\u{1F600}',
            2 => '\n',
            3 => '\t',
            4 => '\u{7f}',
            5 => '\u{85}',
            6 | 7 => ' ',
            _ => (32 + r.below(95) as u8) as char,
        })
        .collect()
}

fn s11_case(c: &mut Case) -> R {
    let font: &'static Font = *c.rng.pick(&FONTS);
    let (gw, gh) = (font.glyph_size.width, font.glyph_size.height);
    let cols = c.rng.range(1, 9) as usize;
    let rows = c.rng.range(1, 5) as usize;
    let w = cols * gw + if c.rng.bool() { 0 } else { c.rng.below(gw) };
    let h = rows * gh + if c.rng.bool() { 0 } else { c.rng.below(gh) };
    let deep = c.rng.bool();
    let pick = |r: &mut Rng| if r.bool() { None } else { Some(r.below(256) as u8) };
    let (dfg, dbg) = (pick(&mut c.rng), pick(&mut c.rng));
    let mut log = format!("panel {}x{} {} {} {:?} {:?}\n", w, h, font.name, if deep { "888" } else { "565" }, dfg, dbg);
    set_input(&log);
    let g = console(w, h, font, deep, dfg, dbg);
    let con = g.con.clone();
    let con = &mut *con.borrow_mut();
    let mut m = Model {
        w,
        h,
        font,
        cols,
        rows,
        fb: vec![(0, 0, 0); w * h],
        x: 0,
        y: 0,
        fg: None,
        bg: None,
        dfg: dfg.unwrap_or(7),
        dbg: dbg.unwrap_or(0),
        visible: true,
        drawn: None,
        alt: None,
        deep,
    };
    let paper = m.paper();
    m.rect(0, 0, w, h, paper);
    m.cursor();
    let mut sync = true;
    let mut seen = m.display();
    let n = c.rng.few(30) + 1;
    let mut scrolls = 0;
    let mut wraps = 0;
    for i in 0..n {
        if i == 0 {
            if g.panel.borrow().px != seen {
                return Err(viol("a new console is not clear", log));
            }
            if con.size_chars().unwrap() != CharsXY::new(cols as u16, rows as u16) {
                return Err(viol("a new console has the wrong size", log));
            }
        }
        let r = &mut c.rng;
        let k = r.below(20);
        let s = piece(r, cols);
        let (x, y) = (r.below(cols), r.below(rows));
        let (nfg, nbg) = (pick(r), pick(r));
        let t = r.bool();
        let (a, b) = ((coord(r, w as i32), coord(r, h as i32)), (coord(r, w as i32), coord(r, h as i32)));
        let line = match k {
            0..=5 => format!("print {:?}", s),
            6..=9 => format!("write {:?}", s),
            10 => "clear".to_owned(),
            11 => "clear line".to_owned(),
            12 => "clear char".to_owned(),
            13 => "clear until eol".to_owned(),
            14 => format!("color {:?} {:?}", nfg, nbg),
            15 => format!("locate {} {}", x, y),
            16 => format!("cursor {}", t),
            17 => format!("alt {}", m.alt.is_none()),
            18 => format!("sync {}", t),
            _ => format!("move or draw {:?} {:?}", a, b),
        };
        log.push_str(&line);
        log.push('\n');
        set_input(&log);
        let before = m.y;
        let res = match k {
            0..=5 => {
                m.write(&s, &mut scrolls);
                m.newline(&mut scrolls);
                m.cursor();
                con.print(&s)
            }
            6..=9 => {
                m.write(&s, &mut scrolls);
                m.cursor();
                con.write(&s)
            }
            10 => {
                let paper = m.paper();
                m.rect(0, 0, w, h, paper);
                m.x = 0;
                m.y = 0;
                m.cursor();
                con.clear(ClearType::All)
            }
            11 => {
                let paper = m.paper();
                m.rect(0, m.y * gh, w, gh, paper);
                m.x = 0;
                m.cursor();
                con.clear(ClearType::CurrentLine)
            }
            12 => {
                if m.x > 0 {
                    m.x -= 1;
                    let paper = m.paper();
                    m.rect(m.x * gw, m.y * gh, gw, gh, paper);
                }
                m.cursor();
                con.clear(ClearType::PreviousChar)
            }
            13 => {
                let paper = m.paper();
                if m.x < m.cols {
                    m.rect(m.x * gw, m.y * gh, w - m.x * gw, gh, paper);
                } else {
                    let x = m.x * gw;
                    m.rect(x, m.y * gh, w - x, gh, paper);
                }
                m.cursor();
                con.clear(ClearType::UntilNewLine)
            }
            14 => {
                m.fg = nfg;
                m.bg = nbg;
                con.set_color(nfg, nbg)
            }
            15 => {
                m.x = x;
                m.y = y;
                m.cursor();
                con.locate(CharsXY::new(x as u16, y as u16))
            }
            16 => {
                if t {
                    if !m.visible {
                        m.visible = true;
                        m.cursor();
                    }
                    con.show_cursor()
                } else {
                    m.visible = false;
                    m.drawn = None;
                    con.hide_cursor()
                }
            }
            17 => match m.alt.take() {
                None => {
                    m.alt = Some((m.fb.clone(), m.x, m.y, m.fg, m.bg));
                    let paper = m.paper();
                    m.rect(0, 0, w, h, paper);
                    m.x = 0;
                    m.y = 0;
                    m.cursor();
                    con.enter_alt()
                }
                Some((fb, x, y, fg, bg)) => {
                    m.fb = fb;
                    m.x = x;
                    m.y = y;
                    m.fg = fg;
                    m.bg = bg;
                    m.cursor();
                    con.leave_alt()
                }
            },
            18 => {
                sync = t;
                con.set_sync(t).map(|_| ())
            }
            _ => {
                if !m.visible {
                    let (x1, x2) = (a.0.min(b.0), a.0.max(b.0));
                    let (y1, y2) = (a.1.min(b.1), a.1.max(b.1));
                    if x1 < x2 && y1 < y2 {
                        let ink = m.ink();
                        for y in y1.max(0)..y2.min(h as i32) {
                            for x in x1.max(0)..x2.min(w as i32) {
                                m.fb[y as usize * w + x as usize] = ink;
                            }
                        }
                        con.draw_rect_filled(p(a.0, a.1), p(b.0, b.1))
                    } else {
                        Ok(())
                    }
                } else {
                    let to = r.below(cols + 1);
                    let off = to as i32 - m.x as i32;
                    m.x = to;
                    m.cursor();
                    con.move_within_line(off as i16)
                }
            }
        };
        if let Err(e) = res {
            return Err(viol("a console operation fails", format!("{}--- {}", log, e)));
        }
        wraps += m.y.abs_diff(before) as u64;
        if con.color() != (m.fg, m.bg) {
            return Err(viol("the console reports the wrong colors", format!("{}--- {:?}", log, con.color())));
        }
        if sync {
            seen = m.display();
        }
        let now = g.panel.borrow().px.clone();
        if now != seen {
            let o = (0..w * h).find(|o| now[*o] != seen[*o]).unwrap();
            return Err(viol(
                if sync { "the panel does not show the contents of the console" } else { "the panel changes while synchronization is off" },
                format!(
                    "{}--- pixel {},{} (cell {},{} of {}x{}) shows {:?}, must show {:?}",
                    log,
                    o % w,
                    o / w,
                    o % w / gw,
                    o / w / gh,
                    cols,
                    rows,
                    now[o],
                    seen[o]
                ),
            ));
        }
        c.saw("screens compared", 1);
    }
    if !sync {
        con.sync_now().unwrap();
        if g.panel.borrow().px != m.display() {
            return Err(viol("an explicit synchronization does not update the panel", log));
        }
    }
    c.saw("lines scrolled", scrolls);
    c.saw("rows advanced", wraps);
    c.distinct(&m.display());
    c.sample(|| log.clone());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S10",
            level: "exploration",
            rule: "Random sequences of drawing operations on random panels; distinct = different final images",
            assumptions: &["Circles and filled polygons are compared with tolerances of up to 2 pixels around their edges"],
            require: &[("pixels painted", 1000), ("pixels filled by flooding", 1000)],
            stages: vec![
                Stage { name: "shapes", quick: 50000, thorough: 600000, f: s10_case },
                super::console::s10_stage(),
            ],
            probes: vec![],
        },
        Prop {
            id: "S11",
            level: "exploration",
            rule: "Random sequences of text console operations on random panels; distinct = different final images",
            assumptions: &[],
            require: &[("lines scrolled", 1000)],
            stages: vec![Stage { name: "text", quick: 80000, thorough: 600000, f: s11_case }],
            probes: vec![],
        },
    ]
}
