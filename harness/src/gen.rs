//! Workload generation: starting positions, rule sets and move-picking policies.
use crate::model::*;
use crate::rng::Rng;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, IllegalRules, Rule, ScoreRules, CHINESE, JAPANESE};

#[derive(Clone, Debug)]
pub struct Setup {
    pub h: usize,
    pub w: usize,
    pub illegal: u32,
    pub score: u32,
    pub komi: f32,
    pub stones: Vec<(usize, u8)>,
    pub turn: u8,
    pub builder: bool,
    /// How the starting position is made: 0 by setup stones, 1 by handicap points in the builder,
    /// 2 by put_handicap, 3 with a handicap number, 4 with the komi given afterwards.
    pub via: u8,
    pub kind: &'static str,
    /// A result recorded at the set-up: the game is over, and may still be played on.
    pub recorded: Option<EndGame>,
}

pub const KO: u32 = 1;
pub const SUPERKO: u32 = 2;
pub const SUICIDE: u32 = 4;
pub const FILLEYE: u32 = 8;

pub fn col(c: u8) -> Color {
    if c == B {
        Color::Black
    } else {
        Color::White
    }
}
pub fn uncol(c: Option<Color>) -> u8 {
    match c {
        None => E,
        Some(Color::Black) => B,
        Some(Color::White) => W,
    }
}
pub const STONES: u32 = 1;
pub const KOMI: u32 = 2;
pub const PRISONERS: u32 = 4;

// the library's flags by name: the numbers behind them are its own business
const ILLEGAL: [(u32, IllegalRules); 4] =
    [(KO, IllegalRules::KO), (SUPERKO, IllegalRules::SUPERKO), (SUICIDE, IllegalRules::SUICIDE), (FILLEYE, IllegalRules::FILLEYE)];
const SCORE: [(u32, ScoreRules); 3] = [(STONES, ScoreRules::STONES), (KOMI, ScoreRules::KOMI), (PRISONERS, ScoreRules::PRISONNERS)];
pub fn flags(bits: u32) -> IllegalRules {
    ILLEGAL.iter().filter(|x| bits & x.0 != 0).fold(IllegalRules::empty(), |a, x| a | x.1)
}
pub fn sflags(bits: u32) -> ScoreRules {
    SCORE.iter().filter(|x| bits & x.0 != 0).fold(ScoreRules::empty(), |a, x| a | x.1)
}
pub fn bits(f: IllegalRules) -> u32 {
    ILLEGAL.iter().filter(|x| f.contains(x.1)).map(|x| x.0).sum()
}
pub fn sbits(f: ScoreRules) -> u32 {
    SCORE.iter().filter(|x| f.contains(x.1)).map(|x| x.0).sum()
}

impl Setup {
    pub fn rule(&self) -> Rule {
        Rule { komi: self.komi, flag_illegal: flags(self.illegal), flag_score: sflags(self.score) }
    }
    pub fn pos(&self) -> Pos {
        let mut p = Pos::new(self.h, self.w);
        for &(q, c) in &self.stones {
            p.c[q] = c;
        }
        p
    }
    pub fn game(&self) -> Game {
        let p = Pos::new(self.h, self.w);
        let size = GobanSizes::Custom(self.h, self.w);
        let late = Rule { komi: 3.25, ..self.rule() };
        if self.via == 2 && self.recorded.is_none() && self.turn == W && self.stones.iter().all(|s| s.1 == B) {
            let mut g = Game::new(size, self.rule());
            let v: Vec<_> = self.stones.iter().map(|s| p.ij(s.0)).collect();
            g.put_handicap(&v);
            return g;
        }
        if self.stones.is_empty() && !self.builder && self.turn == B && self.recorded.is_none() {
            let mut g = Game::new(size, if self.via == 4 { late } else { self.rule() });
            if self.via == 4 {
                g.set_komi(self.komi);
            }
            return g;
        }
        let mut b = Game::builder();
        b.size((self.h as u8, self.w as u8)).turn(col(self.turn));
        if self.via == 4 {
            b.komi(self.komi).rule(late);
        } else {
            b.rule(self.rule());
        }
        if let Some(o) = self.recorded {
            b.outcome(o);
        }
        if self.via == 1 {
            let v: Vec<_> = self.stones.iter().filter(|s| s.1 == B).map(|s| p.ij(s.0)).collect();
            b.put_handicap(&v);
        }
        if self.via == 3 {
            b.handicap(self.stones.len() as u32 % 11);
        }
        for &(q, c) in &self.stones {
            if self.via != 1 || c != B {
                b.add(Stone { coord: p.ij(q), color: col(c) });
            }
        }
        b.build().expect("building a legal set-up game")
    }
    pub fn show(&self) -> String {
        format!(
            "{} kind={}{} illegal={} score={} komi={} turn={}{}",
            self.pos().line(),
            self.kind,
            ["", " (handicap points)", " (put_handicap)", " (handicap number)", " (komi given apart)"][self.via as usize],
            rule_name(self.illegal),
            self.score,
            self.komi,
            ['-', 'X', 'O'][self.turn as usize],
            self.recorded.map_or(String::new(), |o| format!(" recorded {o:?}"))
        )
    }
}

pub fn rule_name(b: u32) -> String {
    let mut v = vec![];
    for (bit, n) in [(KO, "KO"), (SUPERKO, "SUPERKO"), (SUICIDE, "NOSUICIDE"), (FILLEYE, "NOFILLEYE")] {
        if b & bit != 0 {
            v.push(n);
        }
    }
    if v.is_empty() {
        "FREE".into()
    } else {
        v.join("+")
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SizeClass {
    Tiny,
    Small,
    Medium,
    Large,
    Full,
    Any,
}

pub fn size(rng: &mut Rng, class: SizeClass) -> (usize, usize) {
    let one = |rng: &mut Rng, lo, hi| {
        let a = rng.r(lo, hi);
        let b = if rng.p(0.5) { a } else { rng.r(lo, hi) };
        (a, b)
    };
    match class {
        SizeClass::Tiny => one(rng, 1, 4),
        SizeClass::Small => one(rng, 2, 8),
        SizeClass::Medium => one(rng, 6, 13),
        SizeClass::Large => one(rng, 13, 19),
        SizeClass::Full => (19, 19),
        SizeClass::Any => match rng.n(12) {
            0 | 1 => one(rng, 1, 4),
            2 | 3 => one(rng, 3, 7),
            4 => (9, 9),
            5 => one(rng, 6, 13),
            6 => (rng.r(1, 3), if rng.p(0.35) { 19 } else { rng.r(1, 19) }),
            7 => (if rng.p(0.35) { 19 } else { rng.r(1, 19) }, rng.r(1, 3)),
            8 => (rng.r(1, 19), rng.r(1, 19)),
            9 => (13, 13),
            10 => one(rng, 14, 19),
            _ => (19, 19),
        },
    }
}

pub fn komi(rng: &mut Rng) -> f32 {
    *rng.pick(&[0.0, 0.5, 5.5, 6.5, 7.5, 7.0, 1.0, -3.0, -0.5, 25.25, 0.25, -0.125, 361.0, 1000.0, -361.0, -1000.5])
}

/// A random position without any chain lacking liberties.
pub fn position(rng: &mut Rng, h: usize, w: usize) -> (Pos, &'static str) {
    let mut p = Pos::new(h, w);
    let n = p.n();
    let kind = match rng.n(11) {
        10 => {
            wall(rng, &mut p);
            "wall"
        }
        9 => {
            crowd(rng, &mut p);
            "crowd"
        }
        0 => {
            // salt and pepper
            let f = 0.2 + 0.75 * rng.f();
            for q in 0..n {
                if rng.p(f) {
                    p.c[q] = 1 + rng.n(2) as u8;
                }
            }
            "noise"
        }
        1 | 2 => {
            // blobs: each point takes the colour of its nearest seed
            let k = rng.r(2, 2 + n / 8);
            let seeds: Vec<(i32, i32, u8)> =
                (0..k).map(|_| (rng.n(h) as i32, rng.n(w) as i32, rng.n(5) as u8)).collect();
            for q in 0..n {
                let (i, j) = ((q / w) as i32, (q % w) as i32);
                let s = seeds.iter().min_by_key(|s| (s.0 - i).abs() + (s.1 - j).abs()).unwrap();
                p.c[q] = match s.2 {
                    0 => E,
                    1 | 3 => B,
                    _ => W,
                };
            }
            let holes = rng.n(2 + n / 6);
            for _ in 0..holes {
                p.c[rng.n(n)] = E;
            }
            "blobs"
        }
        3 => {
            // nearly full of one colour
            let c = 1 + rng.n(2) as u8;
            p.c.fill(c);
            for _ in 0..rng.r(1, 4) {
                p.c[rng.n(n)] = E;
            }
            for _ in 0..rng.n(4) {
                p.c[rng.n(n)] = opp(c);
            }
            "full"
        }
        4 => {
            // single-colour checkerboard: every empty point joins up to four chains
            let c = 1 + rng.n(2) as u8;
            for q in 0..n {
                if (q / w + q % w) % 2 == 0 && rng.p(0.92) {
                    p.c[q] = if rng.p(0.9) { c } else { opp(c) };
                }
            }
            "checker"
        }
        5 => {
            // stripes of alternating colours with gaps
            let vertical = rng.p(0.5);
            let period = rng.r(2, 4);
            for q in 0..n {
                let k = if vertical { q % w } else { q / w };
                p.c[q] = match k % period {
                    0 => B,
                    1 => W,
                    _ => E,
                };
                if rng.p(0.08) {
                    p.c[q] = E;
                }
            }
            "stripes"
        }
        6 | 7 => {
            kos(rng, &mut p);
            "kos"
        }
        _ => {
            // two-colour frame: one colour surrounds the other with few liberties left
            let c = 1 + rng.n(2) as u8;
            for q in 0..n {
                let (i, j) = (q / w, q % w);
                let d = i.min(j).min(h - 1 - i).min(w - 1 - j);
                p.c[q] = if d % 2 == 0 { c } else { opp(c) };
                if rng.p(0.1) {
                    p.c[q] = E;
                }
            }
            "frames"
        }
    };
    settle(&mut p, 1 + rng.n(2) as u8);
    (p, kind)
}

/// One colour fills the board, cut in two by a wall of the other: the open point of the wall is the only
/// liberty of both sides. Returns that point.
pub fn wall(rng: &mut Rng, p: &mut Pos) -> usize {
    let c = 1 + rng.n(2) as u8;
    p.c.fill(c);
    let (h, w) = (p.h, p.w);
    let down = rng.p(0.5);
    // a staircase from border to border, often close to one side so that the parts differ in size
    let (len, across) = if down { (h, w) } else { (w, h) };
    let at = |a: usize, b: usize| if down { a * w + b } else { b * w + a };
    let mut b = if rng.p(0.6) { *rng.pick(&[1.min(across - 1), across.saturating_sub(2)]) } else { rng.n(across) };
    let wobble = if rng.p(0.5) { 0.0 } else { 0.3 * rng.f() };
    let mut line = vec![];
    for a in 0..len {
        p.c[at(a, b)] = opp(c);
        line.push(at(a, b));
        while rng.p(wobble) {
            let nb = if rng.p(0.5) { b.saturating_sub(1) } else { (b + 1).min(across - 1) };
            if nb != b {
                b = nb;
                p.c[at(a, b)] = opp(c);
                line.push(at(a, b));
            }
        }
    }
    let gap = *rng.pick(&line);
    p.c[gap] = E;
    for _ in 0..*rng.pick(&[0, 0, 0, 1, 2]) {
        let q = rng.n(p.n());
        p.c[q] = if rng.p(0.5) { E } else { opp(c) };
    }
    p.c[gap] = E;
    gap
}

/// As many chains as a board can hold: single stones of alternating colours, every one next to one of
/// the few empty points. Each of those captures or joins up to four chains.
pub fn crowd(rng: &mut Rng, p: &mut Pos) {
    let (k, slant, c) = (rng.n(5), rng.r(2, 3), rng.n(2));
    for q in 0..p.n() {
        let (i, j) = (q / p.w, q % p.w);
        p.c[q] = if (i + slant * j + k) % 5 == 0 { E } else { 1 + ((i + j + c) % 2) as u8 };
    }
    // the border is not covered by the pattern: open a point where that frees most
    loop {
        let a = Ana::of(p);
        let dead: Vec<usize> = (0..p.n()).filter(|&q| p.c[q] != E && p.nb(q).all(|r| p.c[r] != E)).collect();
        if dead.is_empty() || a.groups.is_empty() {
            break;
        }
        let d = *rng.pick(&dead);
        let best = p.nb(d).chain([d]).max_by_key(|&q| p.nb(q).chain([q]).filter(|r| dead.contains(r)).count()).unwrap();
        p.c[best] = E;
    }
    if rng.p(0.3) {
        for _ in 0..rng.n(6) {
            let q = rng.n(p.n());
            p.c[q] = E;
        }
    }
}

/// Scatters ko shapes in all orientations, also against the edges.
pub fn kos(rng: &mut Rng, p: &mut Pos) {
    let tries = rng.r(2, 4 + p.n() / 12);
    for _ in 0..tries {
        // a ko around two adjacent points a, b: a's other neighbours are one colour, b's the other
        let a = rng.n(p.n());
        let nb: Vec<usize> = p.nb(a).collect();
        if nb.is_empty() {
            continue;
        }
        let b = *rng.pick(&nb);
        let c = 1 + rng.n(2) as u8;
        let cells: Vec<usize> = p.nb(a).chain(p.nb(b)).chain([a, b]).collect();
        if cells.iter().any(|&q| p.c[q] != E && rng.p(0.9)) {
            continue;
        }
        let na: Vec<usize> = p.nb(a).filter(|&q| q != b).collect();
        let nb: Vec<usize> = p.nb(b).filter(|&q| q != a).collect();
        for q in na {
            p.c[q] = c;
        }
        for q in nb {
            p.c[q] = opp(c);
        }
        p.c[a] = opp(c); // the capturable stone
        p.c[b] = E;
        if rng.p(0.2) {
            p.c[a] = E;
        }
    }
}

pub fn rule_flags(rng: &mut Rng) -> u32 {
    match rng.n(6) {
        0 => KO | SUICIDE,
        1 => KO | SUPERKO | SUICIDE,
        2 => SUPERKO | if rng.p(0.5) { SUICIDE } else { 0 },
        _ => rng.n(16) as u32,
    }
}

pub fn setup(rng: &mut Rng, class: SizeClass) -> Setup {
    let (h, w) = size(rng, class);
    setup_sized(rng, h, w)
}

pub fn setup_sized(rng: &mut Rng, h: usize, w: usize) -> Setup {
    let mut illegal = rule_flags(rng);
    let mut score = rng.n(8) as u32;
    let mut km = komi(rng);
    if rng.p(0.15) {
        let r = if rng.p(0.5) { JAPANESE } else { CHINESE };
        illegal = bits(r.flag_illegal);
        score = sbits(r.flag_score);
        km = r.komi;
    }
    let (stones, kind) = if rng.p(0.4) {
        (vec![], "empty")
    } else {
        let (p, kind) = position(rng, h, w);
        let mut v: Vec<(usize, u8)> =
            (0..p.n()).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
        rng.shuffle(&mut v);
        (v, kind)
    };
    let mut via = if rng.p(0.6) { 0 } else { *rng.pick(&[1, 3, 4]) };
    let (mut stones, mut kind) = (stones, kind);
    if rng.p(0.05) {
        // a handicap game
        let mut v: Vec<usize> = (0..h * w).collect();
        rng.shuffle(&mut v);
        v.truncate(rng.n(10.min(h * w / 2 + 1)));
        stones = v.into_iter().map(|q| (q, B)).collect();
        kind = "handicap";
        via = rng.r(1, 2) as u8;
        return Setup { h, w, illegal, score, komi: km, stones, turn: W, builder: rng.p(0.3), via, kind, recorded: None };
    }
    let turn = if stones.is_empty() && rng.p(0.9) { B } else { 1 + rng.n(2) as u8 };
    Setup { h, w, illegal, score, komi: km, stones, turn, builder: rng.p(0.3), via, kind, recorded: None }
}

/// How moves are picked; weights per mode.
#[derive(Clone, Debug)]
pub struct Policy {
    pub pass: f64,
    pub resume: f64,
    pub raw: f64,
    pub occupied: f64,
    pub resign: f64,
    pub modes: Vec<(Mode, f64)>,
    pub len: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Random,
    Capture,
    CaptureBig,
    KoTake,
    Atari,
    Near,
    Tight,
    Join,
    Repeat,
    KoPoint,
    SelfCapture,
}

pub fn policy(rng: &mut Rng, len: usize) -> Policy {
    use Mode::*;
    let style = rng.n(7);
    let modes: Vec<(Mode, f64)> = match style {
        0 => vec![(Random, 1.0)],
        1 => vec![(Capture, 0.5), (CaptureBig, 0.3), (Atari, 0.5), (Random, 0.3), (KoPoint, 0.1)],
        2 => vec![(KoTake, 0.8), (KoPoint, 0.15), (Repeat, 0.1), (Random, 0.1)],
        3 => vec![(Tight, 0.5), (SelfCapture, 0.3), (Capture, 0.3), (Random, 0.3)],
        4 => vec![(Join, 0.6), (Near, 0.3), (Random, 0.3), (CaptureBig, 0.2)],
        5 => vec![(Repeat, 0.4), (Capture, 0.4), (KoTake, 0.3), (KoPoint, 0.2), (Random, 0.3), (SelfCapture, 0.1)],
        _ => vec![(Random, 0.6), (Capture, 0.2), (Atari, 0.2), (Near, 0.2), (Join, 0.1), (KoTake, 0.1), (KoPoint, 0.05)],
    };
    Policy {
        pass: *rng.pick(&[0.0, 0.01, 0.05, 0.2]),
        resume: 0.85,
        raw: *rng.pick(&[0.0, 0.3, 1.0]),
        occupied: 0.02,
        resign: *rng.pick(&[0.0, 0.0, 0.0, 0.015]),
        modes,
        len,
    }
}
