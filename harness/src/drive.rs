//! Drives the real library through a workload and shows every observed event to a monitor.
use crate::ctx::*;
use crate::gen::*;
use crate::ensure;
use crate::model::*;
use goban::pieces::goban::Goban;
use goban::rules::game::Game;
use goban::rules::{Move, PlayError};
use std::collections::HashMap;

/// The board as the library shows it, read point by point.
pub fn observe(g: &Goban, h: usize, w: usize) -> Pos {
    let mut p = Pos::new(h, w);
    for q in 0..h * w {
        p.c[q] = uncol(g.get_color(p.ij(q)));
    }
    p
}

/// Everything the monitors know about a running game: observations only.
#[derive(Clone)]
pub struct Track {
    pub h: usize,
    pub w: usize,
    /// rule bits in force
    pub illegal: u32,
    pub g: Game,
    pub pos: Pos,
    pub ana: Ana,
    pub turn: u8,
    /// passes in a row, by the events
    pub passes: u32,
    pub resigned: Option<u8>,
    /// every board that stood so far: the start, then the board after each stone play
    pub boards: Vec<Pos>,
    pub seen: HashMap<u64, Vec<u32>>,
    /// the board before the last event if that event was a stone play
    pub before_last: Option<Pos>,
    pub plays: usize,
}

/// One observed event.
pub struct Ev<'a> {
    pub act: Act,
    pub res: Result<(), PlayError>,
    pub by: u8,
    pub before: &'a Pos,
    pub before_ana: &'a Ana,
    pub prisoners: (u32, u32),
    /// point played (stone plays only)
    pub point: Option<usize>,
}

impl Track {
    pub fn new(cx: &mut Ctx, s: &Setup) -> Track {
        let g = cx.drv("setup", || s.game());
        Track::from_game(s.h, s.w, s.illegal, g)
    }
    pub fn from_game(h: usize, w: usize, illegal: u32, g: Game) -> Track {
        let pos = observe(g.goban(), h, w);
        let ana = Ana::of(&pos);
        let turn = uncol(Some(g.turn()));
        let mut t = Track {
            h,
            w,
            illegal,
            g,
            ana,
            turn,
            passes: 0,
            resigned: None,
            boards: vec![],
            seen: HashMap::new(),
            before_last: None,
            plays: 0,
            pos,
        };
        t.remember();
        t
    }
    fn remember(&mut self) {
        self.seen.entry(self.pos.hash()).or_default().push(self.boards.len() as u32);
        self.boards.push(self.pos.clone());
    }
    pub fn stood(&self, b: &Pos) -> bool {
        self.seen
            .get(&b.hash())
            .is_some_and(|v| v.iter().any(|&i| self.boards[i as usize] == *b))
    }
    pub fn suicide_ok(&self) -> bool {
        self.illegal & SUICIDE == 0
    }
    pub fn mv(&self, p: usize) -> Move {
        let (i, j) = self.pos.ij(p);
        Move::Play(i, j)
    }
    /// Board after the player to move puts a stone on an empty point.
    pub fn placed(&self, p: usize) -> Placed {
        place(&self.pos, p, self.turn, self.suicide_ok())
    }
    pub fn is_suicide(&self, p: usize) -> bool {
        self.ana.self_capture(&self.pos, p, self.turn)
    }
    /// The ko rule: one stone captured, and the board from before the opponent's last stone play is back.
    pub fn is_ko(&self, p: usize) -> bool {
        let Some(b) = &self.before_last else { return false };
        if b.c[p] != self.turn {
            return false;
        }
        let caps = self.ana.captures(&self.pos, p, self.turn);
        if caps.len() != 1 || self.ana.groups[caps[0]].stones.len() != 1 {
            return false;
        }
        self.placed(p).board == *b
    }
    pub fn paused(&self) -> bool {
        self.passes >= 2
    }
    /// Applies one event to the library and updates the observations. Returns the play result.
    pub fn apply(&mut self, cx: &mut Ctx, act: Act) -> Result<(), PlayError> {
        cx.acts.push(act);
        let g = &mut self.g;
        let res = match act {
            Act::Try(m) => cx.drv("try_play", || g.try_play(m).map(|_| ())),
            Act::Raw(m) => cx.drv("play", || {
                g.play(m);
                Ok(())
            }),
            Act::Resume => {
                cx.drv("resume", || g.resume());
                Ok(())
            }
            Act::Komi(k) => {
                cx.drv("set_komi", || g.set_komi(k));
                Ok(())
            }
        };
        let mv = match act {
            Act::Try(m) | Act::Raw(m) if res.is_ok() => Some(m),
            _ => None,
        };
        let new = observe(self.g.goban(), self.h, self.w);
        let changed = new != self.pos;
        match mv {
            Some(Move::Play(..)) => {
                self.before_last = Some(std::mem::replace(&mut self.pos, new));
                self.plays += 1;
                self.passes = 0;
                self.remember();
            }
            Some(Move::Pass) => {
                self.pos = new;
                self.before_last = None;
                self.passes += 1;
            }
            Some(Move::Resign(c)) => {
                self.pos = new;
                self.resigned = Some(uncol(Some(c)));
            }
            None => {
                self.pos = new;
                if act == Act::Resume {
                    self.passes = 0;
                }
            }
        }
        if changed {
            self.ana = Ana::of(&self.pos);
        }
        self.turn = uncol(Some(self.g.turn()));
        res
    }
}

pub trait Mon {
    /// A quiescent state: at the start and after every accepted event.
    fn state(&mut self, _cx: &mut Ctx, _t: &Track) -> R {
        Ok(())
    }
    /// Every attempted event, accepted or refused; `t` is the state after it.
    fn event(&mut self, _cx: &mut Ctx, _t: &Track, _e: &Ev) -> R {
        Ok(())
    }
    fn end(&mut self, _cx: &mut Ctx, _t: &Track) -> R {
        Ok(())
    }
}

fn groups_with<'a>(t: &'a Track, f: impl Fn(&Grp) -> bool + 'a) -> impl Iterator<Item = &'a Grp> {
    t.ana.groups.iter().filter(move |g| f(g))
}

/// Chooses a point for the player to move.
pub fn pick_point(cx: &mut Ctx, t: &Track, mode: Mode) -> Option<usize> {
    let me = t.turn;
    let you = opp(me);
    let empties = t.pos.empties();
    if empties.is_empty() {
        return None;
    }
    let cand: Vec<usize> = match mode {
        Mode::Random => vec![],
        Mode::Capture => groups_with(t, |g| g.color == you && g.libs.len() == 1).map(|g| g.libs[0]).collect(),
        Mode::CaptureBig => groups_with(t, |g| g.color == you && g.libs.len() == 1)
            .max_by_key(|g| g.stones.len())
            .map(|g| g.libs[0])
            .into_iter()
            .collect(),
        Mode::KoTake => groups_with(t, |g| g.color == you && g.libs.len() == 1 && g.stones.len() == 1)
            .map(|g| g.libs[0])
            .filter(|&p| t.pos.nb(p).all(|q| t.pos.c[q] == you))
            .collect(),
        Mode::Atari => groups_with(t, |g| g.color == you && g.libs.len() == 2)
            .map(|g| g.libs[(cx.case as usize + t.plays) % 2])
            .collect(),
        Mode::Near => {
            let mut best = vec![];
            for _ in 0..6 {
                let p = *cx.rng.pick(&empties);
                if t.pos.nb(p).any(|q| t.pos.c[q] != E) {
                    best.push(p);
                }
            }
            best
        }
        Mode::Tight => {
            let mut best = (9, 0);
            for _ in 0..10 {
                let p = *cx.rng.pick(&empties);
                let k = t.pos.nb(p).filter(|&q| t.pos.c[q] == E).count();
                if k < best.0 {
                    best = (k, p);
                }
            }
            vec![best.1]
        }
        Mode::Join => {
            let mut best = (0, 0);
            for _ in 0..14 {
                let p = *cx.rng.pick(&empties);
                let k = t.ana.adj(&t.pos, p, me).len();
                if k > best.0 {
                    best = (k, p);
                }
            }
            if best.0 > 1 {
                vec![best.1]
            } else {
                vec![]
            }
        }
        Mode::Repeat => {
            let mut v = vec![];
            for &p in &empties {
                let interesting = !t.ana.captures(&t.pos, p, me).is_empty() || t.is_suicide(p);
                if (interesting || cx.rng.p(0.03)) && t.stood(&t.placed(p).board) {
                    v.push(p);
                }
            }
            v
        }
        Mode::KoPoint => empties.iter().copied().filter(|&p| t.is_ko(p)).collect(),
        Mode::SelfCapture => empties.iter().copied().filter(|&p| t.is_suicide(p)).collect(),
    };
    Some(if cand.is_empty() { *cx.rng.pick(&empties) } else { *cx.rng.pick(&cand) })
}

pub fn pick_mode(cx: &mut Ctx, modes: &[(Mode, f64)]) -> Mode {
    let total: f64 = modes.iter().map(|m| m.1).sum();
    let mut x = cx.rng.f() * total;
    for &(m, w) in modes {
        if x < w {
            return m;
        }
        x -= w;
    }
    modes[0].0
}

/// Next event of the workload, chosen from observations only.
pub fn next_act(cx: &mut Ctx, t: &Track, pol: &Policy) -> Option<Act> {
    if t.paused() {
        if cx.rng.p(0.3) {
            // attempts on a paused game
            let m = match cx.rng.n(3) {
                0 => Move::Pass,
                1 => t.mv(cx.rng.n(t.pos.n())),
                _ => Move::Resign(col(1 + cx.rng.n(2) as u8)),
            };
            return Some(Act::Try(m));
        }
        return if cx.rng.p(pol.resume) { Some(Act::Resume) } else { None };
    }
    if t.resigned.is_none() && cx.rng.p(pol.resign) {
        let m = Move::Resign(col(1 + cx.rng.n(2) as u8));
        return Some(if cx.rng.p(0.5) { Act::Try(m) } else { Act::Raw(m) });
    }
    if cx.rng.p(pol.pass) {
        return Some(if cx.rng.p(0.5) { Act::Try(Move::Pass) } else { Act::Raw(Move::Pass) });
    }
    if cx.rng.p(pol.pass * 0.1) {
        return Some(Act::Resume);
    }
    if cx.rng.p(pol.occupied) {
        return Some(Act::Try(t.mv(cx.rng.n(t.pos.n()))));
    }
    let mode = pick_mode(cx, &pol.modes);
    let Some(p) = pick_point(cx, t, mode) else {
        return Some(Act::Try(Move::Pass));
    };
    // the unchecked interface gets moves the rules in force allow, or only a repetition forbids
    if cx.rng.p(pol.raw) && t.pos.c[p] == E && !(t.illegal & SUICIDE != 0 && t.is_suicide(p)) {
        let repeats = t.illegal & (KO | SUPERKO) != 0 && (t.is_ko(p) || t.stood(&t.placed(p).board));
        if !repeats || cx.rng.p(0.3) {
            return Some(Act::Raw(t.mv(p)));
        }
    }
    Some(Act::Try(t.mv(p)))
}

/// Plays a whole workload under a monitor.
pub fn run<M: Mon>(cx: &mut Ctx, t: &mut Track, pol: &Policy, m: &mut M) -> R {
    m.state(cx, t)?;
    let mut refused = 0;
    for _ in 0..pol.len {
        let Some(act) = next_act(cx, t, pol) else { break };
        let r = step(cx, t, act, m)?;
        if r.is_err() {
            refused += 1;
            if refused > 60 + t.pos.n() {
                break;
            }
        } else {
            refused = 0;
        }
        if t.resigned.is_some() && cx.rng.p(0.5) {
            break;
        }
    }
    m.end(cx, t)
}

/// One event under a monitor.
pub fn step<M: Mon>(cx: &mut Ctx, t: &mut Track, act: Act, m: &mut M) -> R<Result<(), PlayError>> {
    let before = t.pos.clone();
    let before_ana = t.ana.clone();
    let by = t.turn;
    let prisoners = t.g.prisoners();
    let point = match act {
        Act::Try(Move::Play(i, j)) | Act::Raw(Move::Play(i, j)) => Some(t.pos.idx((i, j))),
        _ => None,
    };
    let res = t.apply(cx, act);
    coverage(cx, t, &act, res, by, &before, &before_ana, point);
    let e = Ev { act, res, by, before: &before, before_ana: &before_ana, prisoners, point };
    m.event(cx, t, &e)?;
    if res.is_ok() {
        m.state(cx, t)?;
    }
    Ok(res)
}

/// What the workload reached (evidence), by the observations.
#[allow(clippy::too_many_arguments)]
fn coverage(cx: &mut Ctx, t: &Track, act: &Act, res: Result<(), PlayError>, by: u8, before: &Pos, ana: &Ana, point: Option<usize>) {
    match res {
        Err(PlayError::Ko) => cx.hit("refused_ko"),
        Err(PlayError::Suicide) => cx.hit("refused_suicide"),
        Err(PlayError::GamePaused) => cx.hit("refused_paused"),
        Err(PlayError::FillEye) => cx.hit("refused_eye"),
        Err(PlayError::PointNotEmpty) => cx.hit("refused_occupied"),
        Ok(()) => match act {
            Act::Try(Move::Pass) | Act::Raw(Move::Pass) => cx.hit("passes"),
            Act::Try(Move::Resign(_)) | Act::Raw(Move::Resign(_)) => cx.hit("resignations"),
            Act::Resume => cx.hit("resumes"),
            _ => {
                if let Some(p) = point {
                    cx.hit("plays");
                    if before.c[p] == E {
                        let caps = ana.captures(before, p, by);
                        let n: usize = caps.iter().map(|&g| ana.groups[g].stones.len()).sum();
                        if n > 0 {
                            cx.hit("plays_capturing");
                            cx.max("stones_captured_at_once", n as u64);
                            cx.max("chains_captured_at_once", caps.len() as u64);
                            if caps.len() > 1 {
                                cx.hit("plays_capturing_several_chains");
                            }
                        } else if ana.self_capture(before, p, by) {
                            cx.hit("plays_self_capturing");
                        }
                        let own = ana.adj(before, p, by).len();
                        if own > 1 {
                            cx.hit("plays_merging_chains");
                            cx.max("chains_merged_at_once", own as u64);
                        }
                        if t.boards.len() > 1 && t.seen.get(&t.pos.hash()).is_some_and(|v| v.len() > 1) {
                            cx.hit("plays_repeating_a_board");
                        }
                    }
                    if t.h != t.w {
                        cx.hit("plays_on_rectangular_boards");
                    }
                    cx.max("longest_game", t.plays as u64);
                }
            }
        },
    }
}

/// A standard workload: a set-up of the class, then a random policy.
pub fn start(cx: &mut Ctx, s: Setup) -> Track {
    cx.setup = Some(s.clone());
    Track::new(cx, &s)
}

/// How many positions one case of a tour visits.
const PAGE: u64 = 150;

/// The shapes whose boards a tour visits one and all.
fn tour_shapes(wide: bool, twelve: bool) -> impl Iterator<Item = (usize, usize)> {
    let most = if wide { 10 } else { 8 };
    let mut v: Vec<(usize, usize)> = (1..=most).flat_map(|h| (1..=most).map(move |w| (h, w))).filter(|x| x.0 * x.1 <= most).collect();
    v.push((3, 3));
    if wide && twelve {
        v.extend([(3, 4), (4, 3)]);
    }
    v.sort_by_key(|x| x.0 * x.1);
    v.dedup();
    v.into_iter()
}

/// Every position of every small board: the first cases of a run walk through all of them, both players
/// to move, every play tried from each. Tells whether this case was one of those.
pub fn tour<M: Mon>(cx: &mut Ctx, ledger: bool, make: impl Fn() -> M) -> R<bool> {
    if crate::props::total::tiny() {
        return Ok(false);
    }
    let mut page = cx.case;
    for (h, w) in tour_shapes(cx.thorough(), !matches!(cx.prop, "C05" | "C06" | "C23" | "C28")) {
        let all = 3u64.pow((h * w) as u32);
        let pages = all.div_ceil(PAGE);
        if page >= pages {
            page -= pages;
            continue;
        }
        for code in page * PAGE..((page + 1) * PAGE).min(all) {
            let mut pos = Pos::new(h, w);
            let mut k = code;
            for q in 0..h * w {
                pos.c[q] = (k % 3) as u8;
                k /= 3;
            }
            let ana = Ana::of(&pos);
            if ana.groups.iter().any(|g| g.libs.is_empty()) {
                continue;
            }
            let mut stones: Vec<(usize, u8)> = (0..h * w).filter(|&q| pos.c[q] != E).map(|q| (q, pos.c[q])).collect();
            cx.rng.shuffle(&mut stones);
            for turn in [B, W] {
                let s = Setup {
                    h,
                    w,
                    illegal: rule_flags(&mut cx.rng),
                    score: cx.rng.n(8) as u32,
                    komi: komi(&mut cx.rng),
                    stones: stones.clone(),
                    turn,
                    builder: cx.rng.p(0.3),
                    via: 0,
                    recorded: None,
                    kind: "tour",
                };
                cx.acts.clear();
                let t = start(cx, s);
                ensure!(t.pos == pos, "the set-up board is not the one asked for:\nobserved\n{}expected\n{}", t.pos.show(), pos.show());
                let mut m = make();
                m.state(cx, &t)?;
                for p in pos.empties() {
                    let mut u = t.clone();
                    let mut m = make();
                    if ledger {
                        m.state(cx, &u)?;
                    }
                    cx.acts.clear();
                    let act = Act::Try(u.mv(p));
                    let _ = step(cx, &mut u, act, &mut m)?;
                }
                cx.hit("tour_positions");
            }
        }
        return Ok(true);
    }
    Ok(false)
}

/// Size class and number of moves suited to the tier.
pub fn game_len(cx: &mut Ctx, n: usize) -> usize {
    let base = match cx.rng.n(5) {
        0 => n / 2 + 4,
        1 => n + 10,
        2 => 2 * n + 20,
        3 => 3 * n + 40,
        _ => cx.rng.n(n + 30) + 1,
    };
    base.min(1500)
}

/// A length of at most `cap` plays, but once in a while a marathon: what wears out or is forgotten
/// only after hundreds of plays shows on small boards too.
pub fn capped_len(cx: &mut Ctx, n: usize, cap: usize) -> usize {
    if n <= 60 && cx.rng.p(0.008) && !crate::props::total::tiny() {
        cx.hit("marathons");
        return cx.rng.r(400, 2000);
    }
    game_len(cx, n).min(cap)
}
