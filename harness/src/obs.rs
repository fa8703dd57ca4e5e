//! Digest of everything a user can observe of a game, by field.
use crate::gen::*;
use crate::model::*;
use crate::rng::mix;
use goban::pieces::goban::Goban;
use goban::rules::game::Game;
use goban::rules::{EndGame, PlayError};

pub struct Dig(pub u64);
impl Dig {
    pub fn new() -> Dig {
        Dig(0x1234_5678)
    }
    pub fn u(&mut self, v: u64) -> &mut Self {
        self.0 = mix(self.0 ^ v).wrapping_add(v);
        self
    }
    pub fn pos(&mut self, p: &Pos) -> &mut Self {
        self.u(p.hash())
    }
    pub fn pts(&mut self, v: &[usize]) -> &mut Self {
        self.u(v.len() as u64);
        for &x in v {
            self.u(x as u64);
        }
        self
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Obs(pub Vec<(&'static str, u64)>);

impl Obs {
    pub fn diff(&self, o: &Obs) -> String {
        let mut v = vec![];
        for (a, b) in self.0.iter().zip(&o.0) {
            if a != b {
                v.push(a.0);
            }
        }
        v.join(", ")
    }
    /// Digest of what every feature set shows.
    pub fn common(&self) -> u64 {
        let mut d = Dig::new();
        for x in &self.0 {
            if x.0 != "history" {
                d.u(x.1);
            }
        }
        d.0
    }
    pub fn digest(&self) -> u64 {
        let mut d = Dig::new();
        for x in &self.0 {
            d.u(x.1);
        }
        d.0
    }
}

pub fn err_code(e: Option<PlayError>) -> u64 {
    match e {
        None => 0,
        Some(PlayError::Ko) => 1,
        Some(PlayError::Suicide) => 2,
        Some(PlayError::GamePaused) => 3,
        Some(PlayError::FillEye) => 4,
        Some(PlayError::PointNotEmpty) => 5,
    }
}

pub fn outcome_code(o: Option<EndGame>) -> u64 {
    let c = |x| uncol(Some(x)) as u64;
    match o {
        None => 0,
        Some(EndGame::Draw) => 1,
        Some(EndGame::WinnerByScore(p, m)) => 10 + c(p) + ((m.to_bits() as u64) << 16),
        Some(EndGame::WinnerByResign(p)) => 20 + c(p),
        Some(EndGame::WinnerByTime(p)) => 30 + c(p),
        Some(EndGame::WinnerByForfeit(p)) => 40 + c(p),
    }
}

/// Sorted board indexes of coordinates; off-board coordinates show as huge values.
pub fn sorted(pos: &Pos, it: impl Iterator<Item = (u8, u8)>) -> Vec<usize> {
    let mut v: Vec<usize> = it.map(|c| coord_idx(pos, c)).collect();
    v.sort_unstable();
    v
}
pub fn coord_idx(pos: &Pos, c: (u8, u8)) -> usize {
    if (c.0 as usize) < pos.h && (c.1 as usize) < pos.w {
        pos.idx(c)
    } else {
        1_000_000 + c.0 as usize * 1000 + c.1 as usize
    }
}

/// Chains by content: (colour, stones, liberties) without their identifiers.
pub fn chain_digest(g: &Goban) -> u64 {
    let mut v: Vec<(u8, u16, Vec<usize>)> =
        g.chains().map(|c| (uncol(Some(c.color)), c.num_stones, c.liberties())).collect();
    v.iter_mut().for_each(|c| c.2.sort_unstable());
    v.sort();
    let mut d = Dig::new();
    for (c, n, l) in v {
        d.u(c as u64).u(n as u64).pts(&l);
    }
    d.0
}

pub fn board_obs(g: &Goban, h: usize, w: usize) -> Vec<(&'static str, u64)> {
    let pos = crate::drive::observe(g, h, w);
    let mut out = vec![];
    let s = g.size();
    out.push(("size", s.0 as u64 * 1000 + s.1 as u64));
    out.push(("board", pos.hash()));
    out.push(("hash", g.zobrist_hash()));
    out.push(("chains", chain_digest(g)));
    let (b, wh) = g.number_of_stones();
    out.push(("stone counts", (b as u64) << 32 | wh as u64));
    let mut d = Dig::new();
    d.pts(&sorted(&pos, g.get_empty_coords()));
    let mut e: Vec<usize> = g.get_empty_idx().collect();
    e.sort_unstable();
    d.pts(&e);
    out.push(("empty points", d.0));
    let mut d = Dig::new();
    for c in g.to_vec() {
        d.u(uncol(c) as u64);
    }
    for b in g.pretty_string().bytes() {
        d.u(b as u64);
    }
    out.push(("views", d.0));
    let (tb, tw) = g.get_territories();
    let mut d = Dig::new();
    d.pts(&sorted(&pos, tb.map(|p| p.coord))).pts(&sorted(&pos, tw.map(|p| p.coord)));
    out.push(("territory", d.0));
    out
}

/// All observables of a game. `deep` adds the verdicts under other rule sets and lookahead.
pub fn game_obs(g: &Game, h: usize, w: usize, deep: bool) -> Obs {
    let pos = crate::drive::observe(g.goban(), h, w);
    let mut out = board_obs(g.goban(), h, w);
    out.push(("turn", uncol(Some(g.turn())) as u64));
    let p = g.prisoners();
    out.push(("prisoners", (p.0 as u64) << 32 | p.1 as u64));
    out.push(("komi", g.komi().to_bits() as u64));
    out.push(("over", g.is_over() as u64));
    out.push(("outcome", outcome_code(g.outcome())));
    let sc = g.calculate_score();
    out.push(("score", (sc.0.to_bits() as u64) << 32 | sc.1.to_bits() as u64));
    let mut d = Dig::new();
    d.pts(&sorted(&pos, g.legals()));
    for q in 0..pos.n() {
        d.u(err_code(g.check_point(pos.ij(q))));
    }
    out.push(("legal points", d.0));
    if deep {
        let mut d = Dig::new();
        for bits in [KO, SUPERKO, SUICIDE, KO | SUICIDE, SUPERKO | SUICIDE | KO, FILLEYE, 0] {
            if bits & SUPERKO != 0 && pos.n() > 170 {
                continue;
            }
            for q in 0..pos.n() {
                d.u(err_code(g.check_point_by(pos.ij(q), flags(bits))));
            }
        }
        out.push(("verdicts under other rules", d.0));
    }
    #[cfg(feature = "full")]
    {
        let mut d = Dig::new();
        for b in g.history() {
            d.u(b.zobrist_hash()).pos(&crate::drive::observe(b, h, w));
        }
        out.push(("history", d.0));
    }
    Obs(out)
}
