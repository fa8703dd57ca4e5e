//! Independent statement of the rules of Go over plain grids. Nothing here uses the library.
use std::collections::BTreeSet;

pub const E: u8 = 0;
pub const B: u8 = 1;
pub const W: u8 = 2;

pub fn opp(c: u8) -> u8 {
    3 - c
}

/// A position: h rows of w intersections, row-major.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pos {
    pub h: usize,
    pub w: usize,
    pub c: Vec<u8>,
}

impl std::fmt::Debug for Pos {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.show())
    }
}

pub struct Nb {
    a: [usize; 4],
    n: usize,
    i: usize,
}
impl Iterator for Nb {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.i < self.n {
            self.i += 1;
            Some(self.a[self.i - 1])
        } else {
            None
        }
    }
}

impl Pos {
    pub fn new(h: usize, w: usize) -> Pos {
        Pos { h, w, c: vec![E; h * w] }
    }
    pub fn n(&self) -> usize {
        self.c.len()
    }
    pub fn ij(&self, p: usize) -> (u8, u8) {
        ((p / self.w) as u8, (p % self.w) as u8)
    }
    pub fn idx(&self, ij: (u8, u8)) -> usize {
        ij.0 as usize * self.w + ij.1 as usize
    }
    pub fn nb(&self, p: usize) -> Nb {
        let (i, j) = (p / self.w, p % self.w);
        let mut a = [0; 4];
        let mut n = 0;
        if i > 0 {
            a[n] = p - self.w;
            n += 1;
        }
        if i + 1 < self.h {
            a[n] = p + self.w;
            n += 1;
        }
        if j > 0 {
            a[n] = p - 1;
            n += 1;
        }
        if j + 1 < self.w {
            a[n] = p + 1;
            n += 1;
        }
        Nb { a, n, i: 0 }
    }
    /// On-board diagonal neighbours.
    pub fn diag(&self, p: usize) -> Vec<usize> {
        let (i, j) = ((p / self.w) as i32, (p % self.w) as i32);
        let mut v = vec![];
        for (di, dj) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
            let (a, b) = (i + di, j + dj);
            if a >= 0 && b >= 0 && a < self.h as i32 && b < self.w as i32 {
                v.push(a as usize * self.w + b as usize);
            }
        }
        v
    }
    /// Maximal connected region of points of the same content as p.
    pub fn region(&self, p: usize) -> Vec<usize> {
        let col = self.c[p];
        let mut seen = vec![false; self.n()];
        let mut out = vec![p];
        seen[p] = true;
        let mut i = 0;
        while i < out.len() {
            let q = out[i];
            i += 1;
            for r in self.nb(q) {
                if !seen[r] && self.c[r] == col {
                    seen[r] = true;
                    out.push(r);
                }
            }
        }
        out
    }
    /// Distinct points with content `v` adjacent to a set of points.
    pub fn border(&self, pts: &[usize], v: u8) -> Vec<usize> {
        let mut s = BTreeSet::new();
        for &p in pts {
            for q in self.nb(p) {
                if self.c[q] == v {
                    s.insert(q);
                }
            }
        }
        s.into_iter().collect()
    }
    pub fn count(&self, v: u8) -> usize {
        self.c.iter().filter(|&&x| x == v).count()
    }
    pub fn empties(&self) -> Vec<usize> {
        (0..self.n()).filter(|&p| self.c[p] == E).collect()
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for i in 0..self.h {
            for j in 0..self.w {
                s.push(['.', 'X', 'O'][self.c[i * self.w + j] as usize]);
            }
            s.push('\n');
        }
        s
    }
    pub fn line(&self) -> String {
        format!("{}x{}:{}", self.h, self.w, self.show().trim_end().replace('\n', "/"))
    }
    /// Content hash, independent of the library.
    pub fn hash(&self) -> u64 {
        let mut x = crate::rng::mix((self.h * 64 + self.w) as u64);
        for &c in &self.c {
            x = (x ^ c as u64 ^ 0x33).wrapping_mul(0x1000_0000_01b3);
            x ^= x >> 29;
        }
        crate::rng::mix(x)
    }
    /// (black territory, white territory) as sorted point lists.
    pub fn territory(&self) -> (Vec<usize>, Vec<usize>) {
        let mut seen = vec![false; self.n()];
        let (mut b, mut w) = (vec![], vec![]);
        for p in 0..self.n() {
            if self.c[p] != E || seen[p] {
                continue;
            }
            let reg = self.region(p);
            let (mut tb, mut tw) = (false, false);
            for &q in &reg {
                seen[q] = true;
                for r in self.nb(q) {
                    tb |= self.c[r] == B;
                    tw |= self.c[r] == W;
                }
            }
            match (tb, tw) {
                (true, false) => b.extend(reg),
                (false, true) => w.extend(reg),
                _ => (),
            }
        }
        b.sort_unstable();
        w.sort_unstable();
        (b, w)
    }
}

#[derive(Clone, Debug)]
pub struct Grp {
    pub color: u8,
    /// sorted
    pub stones: Vec<usize>,
    /// sorted
    pub libs: Vec<usize>,
}

/// All chains of a position.
#[derive(Clone)]
pub struct Ana {
    /// chain number of each stone, NONE on empty points
    pub label: Vec<u16>,
    pub groups: Vec<Grp>,
}
pub const NONE: u16 = u16::MAX;

impl Ana {
    pub fn of(pos: &Pos) -> Ana {
        let mut label = vec![NONE; pos.n()];
        let mut groups = vec![];
        for p in 0..pos.n() {
            if pos.c[p] == E || label[p] != NONE {
                continue;
            }
            let g = groups.len() as u16;
            let mut stones = vec![p];
            label[p] = g;
            let mut libs = vec![];
            let mut i = 0;
            while i < stones.len() {
                let q = stones[i];
                i += 1;
                for r in pos.nb(q) {
                    if pos.c[r] == E {
                        libs.push(r);
                    } else if pos.c[r] == pos.c[p] && label[r] == NONE {
                        label[r] = g;
                        stones.push(r);
                    }
                }
            }
            stones.sort_unstable();
            libs.sort_unstable();
            libs.dedup();
            groups.push(Grp { color: pos.c[p], stones, libs });
        }
        Ana { label, groups }
    }
    /// Chains of a colour adjacent to p.
    pub fn adj(&self, pos: &Pos, p: usize, color: u8) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for q in pos.nb(p) {
            if pos.c[q] == color {
                let g = self.label[q] as usize;
                if !v.contains(&g) {
                    v.push(g);
                }
            }
        }
        v
    }
    /// Chains the play would capture.
    pub fn captures(&self, pos: &Pos, p: usize, color: u8) -> Vec<usize> {
        let mut v = self.adj(pos, p, opp(color));
        v.retain(|&g| self.groups[g].libs == [p]);
        v
    }
    /// No liberty left for the player's own chain, captures taken into account.
    pub fn self_capture(&self, pos: &Pos, p: usize, color: u8) -> bool {
        pos.nb(p).all(|q| pos.c[q] != E)
            && self.captures(pos, p, color).is_empty()
            && self.adj(pos, p, color).iter().all(|&g| self.groups[g].libs == [p])
    }
}

/// Result of putting a stone on an empty point.
#[derive(Clone, Debug)]
pub struct Placed {
    pub board: Pos,
    /// captured opposing chains
    pub caps: Vec<Vec<usize>>,
    /// own stones without liberty after captures (removed from `board` when suicide is permitted)
    pub dead_own: Vec<usize>,
}

impl Placed {
    pub fn ncap(&self) -> usize {
        self.caps.iter().map(|v| v.len()).sum()
    }
}

/// The rule itself, by flood fill.
pub fn place(pos: &Pos, p: usize, color: u8, suicide_ok: bool) -> Placed {
    assert_eq!(pos.c[p], E);
    let mut b = pos.clone();
    b.c[p] = color;
    let mut caps = vec![];
    for q in pos.nb(p) {
        if b.c[q] == opp(color) {
            let reg = b.region(q);
            if b.border(&reg, E).is_empty() {
                caps.push(reg);
            }
            // removal after all chains were examined; a chain adjacent twice is examined twice
        }
    }
    let mut uniq: Vec<Vec<usize>> = vec![];
    for mut r in caps {
        r.sort_unstable();
        if !uniq.contains(&r) {
            uniq.push(r);
        }
    }
    for r in &uniq {
        for &q in r {
            b.c[q] = E;
        }
    }
    let own = b.region(p);
    let dead_own = if b.border(&own, E).is_empty() { own } else { vec![] };
    if suicide_ok {
        for &q in &dead_own {
            b.c[q] = E;
        }
    }
    Placed { board: b, caps: uniq, dead_own }
}

/// Removes every chain without liberty (to make generated positions legal).
pub fn settle(pos: &mut Pos, protect: u8) {
    for col in [opp(protect), protect] {
        let a = Ana::of(pos);
        for g in &a.groups {
            if g.color == col && g.libs.is_empty() {
                for &q in &g.stones {
                    pos.c[q] = E;
                }
            }
        }
    }
}
