//! Monitors of whole games: C06 C12 C15 C16 C18.
use super::board::*;
use super::rules::*;
use crate::ctx::*;
use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::ensure;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{EndGame, Move, PlayError};

pub struct Nothing;
impl Mon for Nothing {}

/// A random continuation; results and observables of both games must agree at every step.
pub fn same_future(cx: &mut Ctx, a: &mut Game, b: &mut Game, h: usize, w: usize, steps: usize, why: &str) -> R {
    let n = h * w;
    let blank = Pos::new(h, w);
    for k in 0..steps {
        let what = cx.rng.n(10);
        let p = blank.ij(cx.rng.n(n));
        let act = match what {
            0 | 1 => Move::Pass,
            _ => {
                let l: Vec<(u8, u8)> = a.legals().collect();
                if what < 8 && !l.is_empty() {
                    let c = *cx.rng.pick(&l);
                    Move::Play(c.0, c.1)
                } else {
                    Move::Play(p.0, p.1)
                }
            }
        };
        let ra = a.try_play(act).map(|_| ());
        let rb = b.try_play(act).map(|_| ());
        ensure!(ra == rb, "{why}: step {k} {act:?} gives {ra:?} on one and {rb:?} on the other");
        if ra == Err(PlayError::GamePaused) {
            a.resume();
            b.resume();
        }
        let (oa, ob) = (game_obs(a, h, w, false), game_obs(b, h, w, false));
        ensure!(oa == ob, "{why}: after step {k} {act:?} the games differ in {}", oa.diff(&ob));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

struct C06 {
    stride: usize,
    k: usize,
}
impl Mon for C06 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        let interesting = t.paused() || t.passes == 1 || t.before_last.as_ref().is_some_and(|b| b.count(t.turn) > t.pos.count(t.turn));
        if self.k % self.stride != 0 && !(interesting && cx.rng.p(0.3)) {
            return Ok(());
        }
        let (h, w, n) = (t.h, t.w, t.pos.n());
        let deep = n <= 50 || cx.rng.p(0.1);
        let o0 = game_obs(&t.g, h, w, deep);
        // queries: reading everything (again) changes nothing
        for p in 0..n {
            let ij = t.pos.ij(p);
            std::hint::black_box((t.g.has_liberties(ij), t.g.will_capture(ij)));
            if t.pos.c[p] == E {
                for c in [B, W] {
                    let s = Stone { coord: ij, color: col(c) };
                    std::hint::black_box((t.g.check_suicide(s), t.g.check_eye(s), t.g.check_ko(s)));
                }
                if (p + self.k) % 7 == 0 && !(t.illegal & SUICIDE != 0 && t.is_suicide(p)) {
                    std::hint::black_box(t.g.play_for_verification(ij));
                    std::hint::black_box(t.g.check_super_ko(Stone { coord: ij, color: col(t.turn) }));
                }
            }
        }
        std::hint::black_box((t.g.matrix(), t.g.get_stones().count(), t.g.get_chains_from_stones(std::iter::empty())));
        for bits in 0..8 {
            std::hint::black_box(t.g.calculate_score_by(sflags(bits)));
        }
        let o1 = game_obs(&t.g, h, w, deep);
        cx.hit("query_rounds");
        ensure!(o0 == o1, "queries changed: {}", o0.diff(&o1));
        // refused plays: of every reason on offer
        let mut g = t.g.clone();
        let og = game_obs(&g, h, w, deep);
        ensure!(og == o0, "a copy differs in {}", o0.diff(&og));
        let mut refused = 0;
        if t.paused() {
            for m in [t.mv(cx.rng.n(n)), Move::Pass, Move::Resign(col(B)), Move::Resign(col(W))] {
                let r = g.try_play(m).map(|_| ());
                if r.is_ok() {
                    return Err(Stop::Blocked("a paused game accepts moves".into()));
                }
                refused += 1;
                cx.hit("refusals_paused");
            }
        } else {
            let mut bad: Vec<usize> = (0..n).filter(|&p| t.pos.c[p] == E && t.g.check_point(t.pos.ij(p)).is_some()).collect();
            bad.truncate(12);
            let occ = stones_of(&t.pos);
            if !occ.is_empty() {
                bad.push(*cx.rng.pick(&occ));
                bad.push(*cx.rng.pick(&occ));
            }
            cx.rng.shuffle(&mut bad);
            for p in bad {
                let r = g.try_play(t.mv(p)).map(|_| ());
                match r {
                    Err(e) => {
                        cx.hit(&format!("refusals_{e:?}"));
                        refused += 1;
                    }
                    Ok(()) => return Err(Stop::Blocked("the checked play accepts what the point check refuses".into())),
                }
            }
        }
        let o2 = game_obs(&g, h, w, deep);
        ensure!(o0 == o2, "refused plays changed: {}\n{}", o0.diff(&o2), t.pos.show());
        let mut twin = t.g.clone();
        same_future(cx, &mut g, &mut twin, h, w, 4, "a game with refused plays and one without")?;
        // the copies moved on, the original did not
        let o3 = game_obs(&t.g, h, w, deep);
        ensure!(o0 == o3, "playing on a copy changed the original: {}", o0.diff(&o3));
        // and the other way round: the original moves on, its copy does not
        let (mut orig, copy) = (t.g.clone(), t.g.clone());
        let copy2 = copy.clone();
        for _ in 0..3 {
            let l: Vec<_> = orig.legals().collect();
            if orig.is_over() && t.resigned.is_none() {
                orig.resume();
            }
            if l.is_empty() {
                break;
            }
            let c = *cx.rng.pick(&l);
            orig.play(Move::Play(c.0, c.1));
        }
        orig.set_komi(77.0);
        let o4 = game_obs(&copy, h, w, deep);
        ensure!(o0 == o4, "playing on the original changed its copy: {}", o0.diff(&o4));
        // a copy of the board is the caller's own
        let mut b = copy.goban().clone();
        if let Some(&p) = t.pos.empties().first() {
            b.push(t.pos.ij(p), col(B));
            if let Some(q) = t.pos.nb(p).next() {
                if let Some(&id) = b.get_connected_groups_idx(q).first() {
                    b.remove_chain(id);
                }
            }
        }
        drop(copy);
        let o5 = game_obs(&copy2, h, w, deep);
        ensure!(o0 == o5, "editing a copied board changed the game: {}", o0.diff(&o5));
        cx.eval(o0.digest(), refused > 0);
        Ok(())
    }
}
pub fn c06(cx: &mut Ctx) -> R {
    if tour(cx, false, || C06 { stride: 1, k: 0 })? {
        return Ok(());
    }
    match cx.rng.n(5) {
        0 | 1 => {
            let (h, w) = (cx.rng.r(2, 9), cx.rng.r(2, 9));
            ko_run(cx, h, w, &mut C06 { stride: 6, k: 0 })
        }
        _ => {
            let c = *cx.rng.pick(&[SizeClass::Any, SizeClass::Small, SizeClass::Tiny]);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, if n > 150 { 100 } else { 200 });
            let mut pol = policy(&mut cx.rng, len);
            pol.pass = pol.pass.max(0.03);
            std_run_with(cx, s, pol, &mut C06 { stride: 2 + n / 6, k: 0 })
        }
    }
}

// ---------------------------------------------------------------- C12

/// One of the eight symmetries of the grid, with or without colour exchange.
#[derive(Clone, Copy, Debug)]
pub struct Sym {
    pub transpose: bool,
    pub flip_i: bool,
    pub flip_j: bool,
    pub swap: bool,
}
impl Sym {
    pub fn all() -> Vec<Sym> {
        (0..16)
            .map(|k| Sym { transpose: k & 1 != 0, flip_i: k & 2 != 0, flip_j: k & 4 != 0, swap: k & 8 != 0 })
            .collect()
    }
    pub fn size(&self, h: usize, w: usize) -> (usize, usize) {
        if self.transpose {
            (w, h)
        } else {
            (h, w)
        }
    }
    /// point of an h x w board
    pub fn pt(&self, (i, j): (u8, u8), h: usize, w: usize) -> (u8, u8) {
        let i2 = if self.flip_i { h as u8 - 1 - i } else { i };
        let j2 = if self.flip_j { w as u8 - 1 - j } else { j };
        if self.transpose {
            (j2, i2)
        } else {
            (i2, j2)
        }
    }
    pub fn c(&self, c: u8) -> u8 {
        if self.swap && c != E {
            opp(c)
        } else {
            c
        }
    }
    pub fn pos(&self, p: &Pos) -> Pos {
        let (h, w) = self.size(p.h, p.w);
        let mut o = Pos::new(h, w);
        for q in 0..p.n() {
            let r = o.idx(self.pt(p.ij(q), p.h, p.w));
            o.c[r] = self.c(p.c[q]);
        }
        o
    }
    pub fn pts(&self, v: &[usize], p: &Pos) -> Vec<usize> {
        let (h, w) = self.size(p.h, p.w);
        let o = Pos::new(h, w);
        let mut r: Vec<usize> = v.iter().map(|&q| o.idx(self.pt(p.ij(q), p.h, p.w))).collect();
        r.sort_unstable();
        r
    }
    pub fn mv(&self, m: Move, h: usize, w: usize) -> Move {
        match m {
            Move::Play(i, j) => {
                let c = self.pt((i, j), h, w);
                Move::Play(c.0, c.1)
            }
            Move::Pass => Move::Pass,
            Move::Resign(c) => Move::Resign(col(self.c(uncol(Some(c))))),
        }
    }
    pub fn outcome(&self, o: Option<EndGame>) -> Option<EndGame> {
        let f = |c| col(self.c(uncol(Some(c))));
        o.map(|o| match o {
            EndGame::WinnerByScore(c, m) => EndGame::WinnerByScore(f(c), m),
            EndGame::WinnerByResign(c) => EndGame::WinnerByResign(f(c)),
            EndGame::WinnerByTime(c) => EndGame::WinnerByTime(f(c)),
            EndGame::WinnerByForfeit(c) => EndGame::WinnerByForfeit(f(c)),
            EndGame::Draw => EndGame::Draw,
        })
    }
}

struct Twin {
    sym: Sym,
    g: Game,
}

fn sym_compare(cx: &mut Ctx, base: &Track, tw: &Twin, full: bool) -> R {
    let s = tw.sym;
    let (h, w) = s.size(base.h, base.w);
    let got = observe(tw.g.goban(), h, w);
    let want = s.pos(&base.pos);
    ensure!(got == want, "{s:?}: board\n{}expected\n{}", got.show(), want.show());
    ensure!(uncol(Some(tw.g.turn())) == s.c(base.turn), "{s:?}: another player is to move");
    let pr = base.g.prisoners();
    let want_pr = if s.swap { (pr.1, pr.0) } else { pr };
    ensure!(tw.g.prisoners() == want_pr, "{s:?}: prisoners {:?}, expected {want_pr:?}", tw.g.prisoners());
    ensure!(tw.g.is_over() == base.g.is_over(), "{s:?}: is_over() differs");
    cx.hit("states_compared");
    if !full {
        return Ok(());
    }
    let legal = s.pts(&sorted(&base.pos, base.g.legals()), &base.pos);
    let got_legal = sorted(&got, tw.g.legals());
    ensure!(legal == got_legal, "{s:?}: legal points {got_legal:?}, expected {legal:?}\n{}", got.show());
    for p in 0..base.pos.n() {
        let ij = base.pos.ij(p);
        let q = s.pt(ij, base.h, base.w);
        ensure!(tw.g.check_point(q) == base.g.check_point(ij), "{s:?}: verdict of {q:?} is {:?}, of {ij:?} {:?}", tw.g.check_point(q), base.g.check_point(ij));
    }
    let (tb, tv) = base.g.get_territories();
    let (tb, tv) = (sorted(&base.pos, tb.map(|p| p.coord)), sorted(&base.pos, tv.map(|p| p.coord)));
    let (gb, gw) = tw.g.get_territories();
    let (gb, gw) = (sorted(&got, gb.map(|p| p.coord)), sorted(&got, gw.map(|p| p.coord)));
    let (mut wb, mut ww) = (s.pts(&tb, &base.pos), s.pts(&tv, &base.pos));
    if s.swap {
        std::mem::swap(&mut wb, &mut ww);
    }
    ensure!(gb == wb && gw == ww, "{s:?}: territory differs\n{}", got.show());
    for bits in 0..8 {
        // komi is zero in this workload
        let a = base.g.calculate_score_by(sflags(bits));
        let a = if s.swap { (a.1, a.0) } else { a };
        let b = tw.g.calculate_score_by(sflags(bits));
        ensure!(a == b, "{s:?}: score {b:?}, expected {a:?}");
    }
    ensure!(outcome_code(tw.g.outcome()) == outcome_code(s.outcome(base.g.outcome())), "{s:?}: outcome {:?}, expected {:?}", tw.g.outcome(), s.outcome(base.g.outcome()));
    cx.hit("full_comparisons");
    Ok(())
}

pub fn c12(cx: &mut Ctx) -> R {
    let c = any_class(cx);
    let mut s = if cx.rng.p(0.3) {
        let (h, w) = (cx.rng.r(2, 8), cx.rng.r(2, 8));
        let mut s = setup_sized(&mut cx.rng, h, w);
        let mut p = Pos::new(h, w);
        kos(&mut cx.rng, &mut p);
        settle(&mut p, B);
        s.stones = stones_of(&p).into_iter().map(|q| (q, p.c[q])).collect();
        s.kind = "kofield";
        s
    } else {
        setup(&mut cx.rng, c)
    };
    s.komi = 0.0;
    s.builder = true;
    super::rules::record_result(cx, &mut s);
    // the eye filter is a documented heuristic whose verdict depends on the order of the corners
    s.illegal &= !FILLEYE;
    let n = s.h * s.w;
    let len = capped_len(cx, n, 220);
    let mut pol = policy(&mut cx.rng, len);
    if s.kind == "kofield" {
        pol.modes.push((Mode::KoTake, 1.0));
        pol.modes.push((Mode::KoPoint, 0.4));
    }
    pol.resign = 0.001;
    let stride = 2 + n / 8;
    let mut base = start(cx, s.clone());
    let mut syms = Sym::all();
    syms.remove(0);
    if n > 100 {
        cx.rng.shuffle(&mut syms);
        syms.truncate(6);
    }
    let mut twins: Vec<Twin> = vec![];
    for sym in syms {
        let (h, w) = sym.size(s.h, s.w);
        let b = Pos::new(h, w);
        let p0 = Pos::new(s.h, s.w);
        let mut stones: Vec<(usize, u8)> = s.stones.iter().map(|&(q, c)| (b.idx(sym.pt(p0.ij(q), s.h, s.w)), sym.c(c))).collect();
        cx.rng.shuffle(&mut stones);
        let s2 = Setup { h, w, stones, turn: sym.c(s.turn), recorded: sym.outcome(s.recorded), ..s.clone() };
        twins.push(Twin { sym, g: s2.game() });
    }
    for k in 0..pol.len {
        let Some(act) = next_act(cx, &base, &pol) else { break };
        let before = base.pos.clone();
        let (h, w) = (base.h, base.w);
        let res = base.apply(cx, act);
        for tw in &mut twins {
            let r = match act {
                Act::Try(m) => tw.g.try_play(tw.sym.mv(m, h, w)).map(|_| ()),
                Act::Raw(m) => {
                    tw.g.play(tw.sym.mv(m, h, w));
                    Ok(())
                }
                Act::Resume => {
                    tw.g.resume();
                    Ok(())
                }
                Act::Komi(_) => Ok(()),
            };
            ensure!(r == res, "{:?}: {act:?} gives {r:?} in the transformed game and {res:?} in the original\n{}", tw.sym, before.show());
            cx.hit("moves_compared");
            let full = k % stride == stride - 1 || res.is_err() && cx.rng.p(0.2);
            sym_compare(cx, &base, tw, full)?;
        }
        cx.eval(base.pos.hash() ^ base.turn as u64, base.pos != before);
        if base.resigned.is_some() {
            break;
        }
    }
    for tw in &twins {
        sym_compare(cx, &base, tw, true)?;
    }
    let a = cx.acts.len();
    cx.sample_game(&base, a);
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15(cx: &mut Ctx) -> R {
    let c = any_class(cx);
    let (h, w) = size(&mut cx.rng, c);
    let mut s = setup_sized(&mut cx.rng, h, w);
    s.builder = true;
    let n = h * w;
    let blank = Pos::new(h, w);
    // handicap stones and set-up stones share the stones of the position
    let (mut handicap, mut adds): (Vec<(u8, u8)>, Vec<Stone>) = (vec![], vec![]);
    let use_handicap = cx.rng.p(0.5);
    let most = if cx.rng.p(0.15) { 361 } else { 12 };
    for &(q, c) in &s.stones {
        if use_handicap && c == B && handicap.len() < most {
            handicap.push(blank.ij(q));
        } else if cx.rng.p(0.9) {
            adds.push(Stone { coord: blank.ij(q), color: col(c) });
        }
    }
    if use_handicap && s.stones.is_empty() {
        for _ in 0..cx.rng.n(if most > 12 { 2 * n } else { 9.min(n) } + 1) {
            let p = blank.ij(cx.rng.n(n));
            if !handicap.contains(&p) {
                handicap.push(p);
            }
        }
        handicap.truncate(n.saturating_sub(1));
    }
    // the set-up must leave every chain a liberty
    {
        let mut p = blank.clone();
        for &c in &handicap {
            let q = p.idx(c);
            p.c[q] = B;
        }
        for st in &adds {
            let q = p.idx(st.coord);
            p.c[q] = uncol(Some(st.color));
        }
        if Ana::of(&p).groups.iter().any(|g| g.libs.is_empty()) {
            adds.clear();
            handicap.truncate(n / 2);
        }
    }
    let mut want = blank.clone();
    for &c in &handicap {
        let q = want.idx(c);
        want.c[q] = B;
    }
    for st in &adds {
        let q = want.idx(st.coord);
        want.c[q] = uncol(Some(st.color));
    }
    let turn = if cx.rng.p(0.4) { Some(1 + cx.rng.n(2) as u8) } else { None };
    let komi = if cx.rng.p(0.6) { Some(komi(&mut cx.rng)) } else { None };
    let count = if !handicap.is_empty() && cx.rng.p(0.3) { Some(handicap.len() as u32) } else if handicap.is_empty() && cx.rng.p(0.15) { Some(*cx.rng.pick(&[0, 1, 2, 3, 4, 5, 9, 10, 255, 256, 512, 65536, u32::MAX])) } else { None };
    let n_handicap = count.unwrap_or(handicap.len() as u32);
    let want_turn = turn.unwrap_or(if n_handicap > 0 { W } else { B });
    let rule = s.rule();
    let who = col(1 + cx.rng.n(2) as u8);
    let outcome = if cx.rng.p(0.2) {
        Some(*cx.rng.pick(&[EndGame::Draw, EndGame::WinnerByScore(who, 7.5), EndGame::WinnerByResign(who), EndGame::WinnerByTime(who), EndGame::WinnerByForfeit(who)]))
    } else {
        None
    };
    let default_size = (h, w) == (19, 19) && cx.rng.p(0.5);
    cx.note(format!(
        "builder {h}x{w} rule {} komi {komi:?} handicap {handicap:?} count {count:?} setup {adds:?} turn {turn:?} outcome {outcome:?}",
        rule_name(s.illegal)
    ));
    // the calls, in any order
    let make = |cx: &mut Ctx, moves: &[Move], outcome: Option<EndGame>| -> Result<Game, String> {
        let mut calls: Vec<usize> = (0..9).collect();
        cx.rng.shuffle(&mut calls);
        let adds = adds.clone();
        let mut b = Game::builder();
        for c in calls {
            match c {
                0 if !default_size => {
                    b.size((h as u8, w as u8));
                }
                1 => {
                    b.rule(rule);
                }
                2 => {
                    if let Some(k) = komi {
                        b.komi(k);
                    }
                }
                3 if !handicap.is_empty() => {
                    b.put_handicap(&handicap);
                }
                4 => {
                    if let Some(k) = count {
                        b.handicap(k);
                    }
                }
                5 => {
                    for &st in &adds {
                        b.add(st);
                    }
                }
                6 => {
                    if let Some(t) = turn {
                        b.turn(col(t));
                    }
                }
                7 if !moves.is_empty() => {
                    b.moves(moves);
                }
                8 => {
                    if let Some(o) = outcome {
                        b.outcome(o);
                    }
                    b.black_player("Black").white_player("White");
                }
                _ => (),
            }
        }
        b.build()
    };
    let g0 = match make(cx, &[], None) {
        Ok(g) => g,
        Err(e) => crate::violated!("a well-formed setup is refused: {e}"),
    };
    ensure!(g0.size() == (h as u8, w as u8), "size {:?}", g0.size());
    let got = observe(g0.goban(), h, w);
    ensure!(got == want, "set-up board\n{}expected\n{}", got.show(), want.show());
    ensure!(uncol(Some(g0.turn())) == want_turn, "{:?} is to play, expected {want_turn}", g0.turn());
    ensure!(g0.komi() == komi.unwrap_or(rule.komi), "komi {} expected {}", g0.komi(), komi.unwrap_or(rule.komi));
    ensure!(g0.prisoners() == (0, 0) && !g0.is_over() && g0.outcome().is_none(), "a game without moves has prisoners {:?}, over {}", g0.prisoners(), g0.is_over());
    check_chains(g0.goban(), &want, &Ana::of(&want))?;
    // the same by hand, where the public interface allows it
    let mut by_hand = Game::new(goban::rules::GobanSizes::Custom(h, w), goban::rules::Rule { komi: komi.unwrap_or(rule.komi), ..rule });
    let only_black = adds.iter().all(|s| uncol(Some(s.color)) == B);
    let comparable = only_black && (want_turn == W || want.count(B) == 0);
    if comparable {
        let mut pts: Vec<(u8, u8)> = handicap.clone();
        pts.extend(adds.iter().map(|s| s.coord));
        if want_turn == W {
            by_hand.put_handicap(&pts);
        }
        let (a, b) = (game_obs(&g0, h, w, true), game_obs(&by_hand, h, w, true));
        ensure!(a == b, "the built game and the one set up by hand differ in {}", a.diff(&b));
        cx.hit("compared_with_hand_made_setup");
    }
    // moves: the driver plays them by hand, the builder replays them
    let long = n > 20 && n < 120 && cx.rng.p(0.006);
    let len = if long { cx.rng.r(700, 3000) } else { cx.rng.n(n.min(80) + 2) };
    let mut pol = policy(&mut cx.rng, len);
    if long {
        pol.modes = vec![(Mode::Random, 1.0), (Mode::Capture, 0.7)];
        pol.pass = 0.01;
    }
    pol.resume = 0.0;
    pol.occupied = 0.0;
    pol.resign = 0.0;
    let mut t = Track::from_game(h, w, s.illegal, g0.clone());
    let mut moves: Vec<Move> = vec![];
    for _ in 0..pol.len {
        if t.paused() {
            break;
        }
        let Some(act) = next_act(cx, &t, &pol) else { break };
        if act == Act::Resume {
            continue;
        }
        let r = t.apply(cx, act);
        if let (Act::Try(m) | Act::Raw(m), Ok(())) = (act, r) {
            moves.push(m);
            if comparable {
                by_hand.play(m);
            }
        }
    }
    if cx.rng.p(0.05) {
        let m = Move::Resign(who);
        t.g.play(m);
        if comparable {
            by_hand.play(m);
        }
        moves.push(m);
    }
    let mut built = match make(cx, &moves, None) {
        Ok(g) => g,
        Err(e) => crate::violated!("a well-formed game is refused: {e}\nmoves {moves:?}"),
    };
    let mut manual = t.g.clone();
    let (a, b) = (game_obs(&built, h, w, true), game_obs(&manual, h, w, true));
    ensure!(a == b, "the built game and the one played by hand differ in {}\nmoves {moves:?}", a.diff(&b));
    if comparable {
        let b = game_obs(&by_hand, h, w, true);
        ensure!(a == b, "the built game and the one set up and played by hand differ in {}\nmoves {moves:?}", a.diff(&b));
        if !built.is_over() {
            let mut x = built.clone();
            same_future(cx, &mut x, &mut by_hand, h, w, 5, "the built game and the one set up by hand")?;
        }
    }
    cx.add("moves_replayed", moves.len() as u64);
    cx.max("moves_in_one_game", moves.len() as u64);
    same_future(cx, &mut built, &mut manual, h, w, 8, "the built game and the one played by hand")?;
    if let Some(o) = outcome {
        let g = match make(cx, &moves, Some(o)) {
            Ok(g) => g,
            Err(e) => crate::violated!("a game with a recorded outcome is refused: {e}"),
        };
        let resigned = matches!(moves.last(), Some(Move::Resign(_)));
        ensure!(g.is_over(), "a recorded outcome does not end the game");
        ensure!(resigned || g.outcome() == Some(o), "recorded outcome {o:?}, outcome() {:?}", g.outcome());
        ensure!(observe(g.goban(), h, w) == t.pos, "a recorded outcome changes the board");
        cx.hit("outcomes_recorded");
    }
    // what cannot be carried out is refused
    if cx.rng.p(0.4) && want.count(E) < n {
        let st = stones_of(&want);
        let p = want.ij(*cx.rng.pick(&st));
        let k = cx.rng.n(6);
        let mut b = Game::builder();
        b.size((h as u8, w as u8)).rule(rule).put_handicap(&handicap);
        for &s in &adds {
            b.add(s);
        }
        let off = match cx.rng.n(4) {
            0 => (cx.rng.r(h, 255) as u8, cx.rng.n(256) as u8),
            1 => (cx.rng.n(256) as u8, cx.rng.r(w, 255) as u8),
            2 => (h as u8, cx.rng.n(w) as u8),
            _ => (cx.rng.n(h) as u8, w as u8),
        };
        match k {
            0 => b.add(Stone { coord: p, color: who }),
            1 => b.add(Stone { coord: off, color: who }),
            2 => b.moves(&[Move::Play(p.0, p.1)]),
            3 => b.moves(&[Move::Pass, Move::Play(off.0, off.1)]),
            4 => b.put_handicap(&[off]),
            _ => {
                let mut v = handicap.clone();
                v.push(if handicap.is_empty() { off } else { handicap[0] });
                b.put_handicap(&v)
            }
        };
        cx.hit("impossible_setups");
        let r = b.build();
        ensure!(r.is_err(), "an impossible setup (kind {k}, occupied {p:?}, outside {off:?}) is not refused");
    }
    cx.eval(a.digest(), want.count(E) < n || !moves.is_empty());
    let note = cx.notes[0].clone();
    let k = moves.len();
    cx.sample(|| format!("{note} + {k} moves"));
    Ok(())
}

// ---------------------------------------------------------------- C16

#[cfg(feature = "full")]
struct C16 {
    stride: usize,
    k: usize,
    /// distinct boards before each play, in order of first occurrence
    want: Vec<Pos>,
    seen: std::collections::HashSet<Pos>,
}
#[cfg(feature = "full")]
impl C16 {
    fn check(&self, cx: &mut Ctx, t: &Track, g: &Game) -> R {
        let mut k = 0;
        for b in g.history() {
            ensure!(k < self.want.len(), "the history lists more than the {} boards there were before the plays", self.want.len());
            let p = observe(b, t.h, t.w);
            ensure!(p == self.want[k], "entry {k} of the history shows\n{}expected\n{}", p.show(), self.want[k].show());
            ensure!(b.size() == (t.h as u8, t.w as u8), "entry {k} has size {:?}", b.size());
            if cx.rng.p(0.02) {
                check_chains(b, &p, &Ana::of(&p))?;
            }
            k += 1;
        }
        ensure!(k == self.want.len(), "the history lists {k} boards, there were {} before the plays\n{}", self.want.len(), t.pos.show());
        cx.add("entries_compared", k as u64);
        cx.max("longest_history", k as u64);
        cx.eval(t.pos.hash() ^ (k as u64) << 20, k > 1);
        Ok(())
    }
}
#[cfg(feature = "full")]
impl Mon for C16 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride == 0 || t.plays == 0 {
            self.check(cx, t, &t.g)?;
            let c = t.g.clone();
            std::hint::black_box((c.legals().count(), c.calculate_score()));
            self.check(cx, t, &c)?;
        }
        Ok(())
    }
    fn event(&mut self, cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        if let (Some(_), Ok(())) = (e.point, e.res) {
            if self.seen.insert(e.before.clone()) {
                self.want.push(e.before.clone());
            } else {
                cx.hit("repeated_boards");
            }
        } else if cx.rng.p(0.2) {
            self.check(cx, t, &t.g)?;
        }
        Ok(())
    }
    fn end(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.check(cx, t, &t.g)
    }
}
#[cfg(feature = "full")]
pub fn c16(cx: &mut Ctx) -> R {
    let m = |stride| C16 { stride, k: 0, want: vec![], seen: Default::default() };
    if cx.rng.p(0.012) {
        // a history of a thousand boards and more
        let (h, w) = (cx.rng.r(4, 9), cx.rng.r(4, 9));
        let mut s = setup_sized(&mut cx.rng, h, w);
        s.illegal &= !FILLEYE;
        let len = if cx.rng.p(0.1) { 24000 } else if cx.rng.p(0.3) { 10000 } else { 3500 };
        let mut pol = policy(&mut cx.rng, len);
        pol.modes = vec![(Mode::Random, 1.0), (Mode::Capture, 1.0), (Mode::Near, 0.3)];
        (pol.resign, pol.occupied, pol.pass, pol.resume) = (0.0, 0.0, 0.01, 1.0);
        return std_run_with(cx, s, pol, &mut m(1500));
    }
    if cx.rng.p(0.04) {
        return super::rules::hash_collision_games(cx, &mut m(1000));
    }
    match cx.rng.n(6) {
        0 => {
            let (h, w) = (cx.rng.r(2, 9), cx.rng.r(2, 9));
            ko_run(cx, h, w, &mut m(3))
        }
        1 => {
            // many repetitions on tiny boards
            let mut s = setup(&mut cx.rng, SizeClass::Tiny);
            s.illegal &= !SUPERKO;
            let mut pol = policy(&mut cx.rng, 400);
            pol.modes.push((Mode::Repeat, 1.0));
            pol.modes.push((Mode::Capture, 1.0));
            std_run_with(cx, s, pol, &mut m(9))
        }
        2 => {
            let s = setup(&mut cx.rng, SizeClass::Large);
            let mut pol = policy(&mut cx.rng, 700);
            pol.modes.push((Mode::Capture, 0.5));
            std_run_with(cx, s, pol, &mut m(60))
        }
        _ => {
            let c = any_class(cx);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, 400);
            let pol = policy(&mut cx.rng, len);
            std_run_with(cx, s, pol, &mut m(3 + n / 10))
        }
    }
}

// ---------------------------------------------------------------- C18

#[cfg(feature = "full")]
fn check_floating(cx: &mut Ctx, t: &Track) -> R<Vec<(usize, Vec<usize>)>> {
    let n = t.pos.n();
    let g = &t.g;
    let mut eyes = vec![0u32; t.ana.groups.len()];
    for p in t.pos.empties() {
        let ij = t.pos.ij(p);
        let e = [B, W].iter().any(|&c| g.check_eye(Stone { coord: ij, color: col(c) }));
        if e {
            let mut ls: Vec<u16> = t.pos.nb(p).map(|q| t.ana.label[q]).filter(|&l| l != NONE).collect();
            ls.sort_unstable();
            ls.dedup();
            for l in ls {
                eyes[l as usize] += 1;
            }
        }
    }
    let ids = g.get_floating_stones();
    let mut named: Vec<(usize, Vec<usize>)> = vec![];
    let mut listed = vec![false; eyes.len()];
    for &id in &ids {
        let st: Vec<Stone> = g.chain_stones(id).take(n + 1).collect();
        let pts = sorted(&t.pos, st.iter().map(|s| s.coord));
        ensure!(!pts.is_empty() && *pts.last().unwrap() < n, "floating chain {id} has stones {pts:?}");
        let l = t.ana.label[pts[0]];
        ensure!(l != NONE && t.ana.groups[l as usize].stones == pts, "floating chain {id} has stones {pts:?}, which is no chain of the board\n{}", t.pos.show());
        ensure!(!listed[l as usize], "the chain {pts:?} is listed twice as floating");
        ensure!(eyes[l as usize] < 2, "the chain {pts:?} touches {} eyes and is listed as floating\n{}", eyes[l as usize], t.pos.show());
        listed[l as usize] = true;
        named.push((id, pts));
    }
    for (l, &x) in listed.iter().enumerate() {
        ensure!(x || eyes[l] >= 2, "the chain {:?} touches {} eyes and is not listed as floating\n{}", t.ana.groups[l].stones, eyes[l], t.pos.show());
    }
    cx.add("floating_chains", named.len() as u64);
    cx.add("chains_with_two_eyes", eyes.iter().filter(|&&e| e >= 2).count() as u64);
    cx.eval(t.pos.hash(), !eyes.is_empty());
    Ok(named)
}
#[cfg(feature = "full")]
struct C18 {
    stride: usize,
    k: usize,
}
#[cfg(feature = "full")]
impl Mon for C18 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride == 0 || t.paused() || t.resigned.is_some() {
            let o0 = game_obs(&t.g, t.h, t.w, false);
            check_floating(cx, t)?;
            let o1 = game_obs(&t.g, t.h, t.w, false);
            ensure!(o0 == o1, "asking for the floating chains changed {}", o0.diff(&o1));
        }
        Ok(())
    }
}
/// Where every continuation of a game ends: for each chain of `chains` (stones and colour), whether
/// some end shows it whole and whether some end shows it broken. None when there are too many.
#[cfg(feature = "full")]
fn all_ends(g: &Game, chains: &[(Vec<usize>, Vec<Option<goban::pieces::stones::Color>>)], w: usize, rule: goban::rules::IllegalRules, budget: usize) -> Option<(Vec<bool>, Vec<bool>, u64)> {
    let mut whole = vec![false; chains.len()];
    let mut broken = vec![false; chains.len()];
    let mut ends = 0;
    let n = g.size().0 as usize * g.size().1 as usize;
    let mut stack = vec![(g.clone(), 0usize)];
    let mut left = budget;
    while let Some((g, depth)) = stack.pop() {
        left = left.checked_sub(1)?;
        if g.is_over() {
            ends += 1;
            for (k, (st, c)) in chains.iter().enumerate() {
                let ok = st.iter().zip(c).all(|(&p, &c)| g.get_color(((p / w) as u8, (p % w) as u8)) == c);
                whole[k] |= ok;
                broken[k] |= !ok;
            }
            continue;
        }
        if depth >= 10 * n {
            // the simulations may stop here
            return None;
        }
        let mut moves: Vec<Move> = g.legals_by(rule).map(Move::from).collect();
        if moves.is_empty() {
            moves.push(Move::Pass);
        }
        for m in moves {
            let mut x = g.clone();
            x.play(m);
            stack.push((x, depth + 1));
        }
    }
    Some((whole, broken, ends))
}
#[cfg(feature = "full")]
fn check_dead(cx: &mut Ctx, t: &Track, sims: usize) -> R {
    let n = t.pos.n();
    let floating = check_floating(cx, t)?;
    let o0 = game_obs(&t.g, t.h, t.w, false);
    if std::env::var_os("GMON_TRACE").is_some() {
        eprintln!("{}{}", cx.describe(), t.pos.show());
    }
    let dead = if sims == 600 { t.g.dead_stones() } else { t.g.dead_stones_wth_simulations(sims) };
    let o1 = game_obs(&t.g, t.h, t.w, false);
    ensure!(o0 == o1, "asking for the dead chains changed {}", o0.diff(&o1));
    cx.hit("dead_chain_queries");
    if t.g.is_over() {
        cx.hit("dead_chain_queries_on_finished_games");
        if matches!(t.g.outcome(), Some(EndGame::Draw)) {
            cx.hit("dead_chain_queries_on_draws");
        }
    }
    cx.add("dead_chains", dead.len() as u64);
    if !t.g.is_over() && t.pos.empties().len() <= 6 && !floating.is_empty() {
        let chains: Vec<(Vec<usize>, Vec<Option<goban::pieces::stones::Color>>)> = floating.iter().map(|f| (f.1.clone(), f.1.iter().map(|&p| mcol(t.pos.c[p])).collect())).collect();
        let rule = flags(t.illegal | FILLEYE);
        match all_ends(&t.g, &chains, t.w, rule, if cx.thorough() { 40_000 } else { 6_000 }) {
            None => cx.hit("continuations_too_many"),
            Some((whole, broken, ends)) => {
                cx.hit("positions_with_all_continuations_played");
                cx.add("ends_of_continuations", ends);
                for (k, f) in floating.iter().enumerate() {
                    let d = dead.contains(&f.0);
                    ensure!(!d || broken[k], "the chain {:?} is named dead, but it stands at the end of every one of {ends} continuations\n{}", f.1, t.pos.show());
                    ensure!(d || whole[k], "the chain {:?} is not named dead, but it falls in every one of {ends} continuations\n{}", f.1, t.pos.show());
                    cx.hit(if !broken[k] { "chains_no_continuation_captures" } else if !whole[k] { "chains_every_continuation_captures" } else { "chains_with_an_open_fate" });
                }
            }
        }
    }
    for id in dead {
        ensure!(floating.iter().any(|f| f.0 == id), "chain {id} is dead but not floating ({} simulations)\n{}", sims, t.pos.show());
    }
    cx.eval(t.pos.hash() ^ sims as u64, n > 1);
    Ok(())
}
#[cfg(feature = "full")]
pub fn c18(cx: &mut Ctx) -> R {
    if tour(cx, false, || C18 { stride: 1, k: 0 })? {
        return Ok(());
    }
    let simulate = cx.rng.p(0.45);
    let (h, w) = if simulate {
        match cx.rng.n(5) {
            0 => (cx.rng.r(1, 3), cx.rng.r(1, 3)),
            1 | 2 => (cx.rng.r(2, 5), cx.rng.r(2, 5)),
            3 => (5, 5),
            _ => (cx.rng.r(3, 7), cx.rng.r(3, 7)),
        }
    } else {
        size(&mut cx.rng, SizeClass::Any)
    };
    let mut s = setup_sized(&mut cx.rng, h, w);
    let r = if cx.rng.p(0.5) { goban::rules::JAPANESE } else { goban::rules::CHINESE };
    // one in five under other rules: there the simulations may never see two passes
    if cx.rng.p(0.8) {
        s.illegal = bits(r.flag_illegal);
        s.score = sbits(r.flag_score);
    } else {
        cx.hit("games_under_other_rule_sets");
    }
    s.komi = r.komi;
    if cx.rng.p(0.4) {
        s.komi = *cx.rng.pick(&[0.0, 0.0, 1.0, 2.0]);
    }
    let n = h * w;
    if cx.rng.p(0.5) {
        // settled looking boards: two colours with eye-like holes
        let mut p = Pos::new(h, w);
        let split = cx.rng.n(w + 1);
        let eh = 0.05 + 0.3 * cx.rng.f();
        let base = 1 + cx.rng.n(2) as u8;
        for q in 0..n {
            p.c[q] = if cx.rng.p(eh) { E } else if q % w < split { base } else { opp(base) };
        }
        settle(&mut p, base);
        s.stones = stones_of(&p).into_iter().map(|q| (q, p.c[q])).collect();
        s.kind = "eyes";
        s.builder = true;
    }
    let mut pol = policy(&mut cx.rng, 1);
    pol.len = if simulate { cx.rng.n(n + 4) } else { capped_len(cx, n, 150) };
    pol.resign = if cx.rng.p(0.1) { 0.02 } else { 0.0 };
    super::rules::record_result(cx, &mut s);
    let mut t = start(cx, s);
    run(cx, &mut t, &pol, &mut C18 { stride: 4 + n / 20, k: 0 })?;
    if simulate {
        // finished, drawn, resigned or running
        match cx.rng.n(4) {
            0 => {
                while !t.paused() && t.resigned.is_none() {
                    if t.apply(cx, Act::Try(Move::Pass)).is_err() {
                        break;
                    }
                }
                if cx.rng.p(0.3) {
                    let terr = t.g.calculate_score();
                    // komi that makes it a draw
                    let k = t.g.komi() + (terr.0 - terr.1);
                    t.g.set_komi(k);
                    cx.note(format!("komi {k}"));
                }
            }
            1 => {
                if !t.paused() && t.resigned.is_none() {
                    t.apply(cx, Act::Try(Move::Pass)).ok();
                }
            }
            _ => (),
        }
        let sims = if t.g.is_over() { 600 } else if n <= 9 { *cx.rng.pick(&[1, 2, 10, 40]) } else if n <= 25 { *cx.rng.pick(&[1, 2, 8]) } else { *cx.rng.pick(&[1, 2]) };
        cx.note(format!("dead_stones_wth_simulations({sims})"));
        check_dead(cx, &t, sims)?;
        let k = cx.acts.len();
        cx.sample_game(&t, k);
    }
    Ok(())
}
