//! Whole-surface transcripts: C21 C22 C25.
use super::board::*;
use super::game::Nothing;
use super::sgf;
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use goban::pieces::goban::Goban;
use goban::pieces::group::{Group, Groups};
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{GobanSizes, Move, Rule};
use std::sync::atomic::{AtomicBool, Ordering};

/// Small workloads only (interpreters and sanitizers that slow everything down).
pub static TINY: AtomicBool = AtomicBool::new(false);
pub fn tiny() -> bool {
    TINY.load(Ordering::Relaxed)
}

/// Every query of a board and a game that the digest of observables leaves out.
fn sweep(g: &Game, h: usize, w: usize, full: bool) -> u64 {
    let b = g.goban();
    let pos = observe(b, h, w);
    let mut d = Dig::new();
    let idx = |v: &mut Vec<usize>| v.sort_unstable();
    for c in [None, Some(col(B)), Some(col(W))] {
        d.pts(&sorted(&pos, b.get_coords_by_color(c)));
        d.pts(&sorted(&pos, b.get_stones_by_color(c).map(|p| p.coord)));
    }
    d.pts(&sorted(&pos, b.get_stones().map(|s| s.coord)));
    d.pts(&sorted(&pos, g.pseudo_legals())).pts(&sorted(&pos, g.pseudo_legals_vec().into_iter()));
    d.pts(&sorted(&pos, g.legals_by(flags(KO))));
    let t = b.calculate_territories();
    d.u(t.0 as u64).u(t.1 as u64);
    let n = pos.n();
    let step = if full { 1 } else { 1 + n / 12 };
    for p in (0..n).step_by(step) {
        let ij = pos.ij(p);
        d.u(uncol(b.get_color(ij)) as u64).u(uncol(b.get_color(p)) as u64);
        d.pts(&sorted(&pos, b.get_connected_points(ij).map(|p| p.coord)));
        d.pts(&sorted(&pos, b.get_connected_stones(ij).map(|p| p.coord)));
        d.pts(&sorted(&pos, b.get_liberties(ij))).u(b.has_liberties(ij) as u64);
        let mut v: Vec<usize> = vec![];
        for id in b.get_connected_groups_idx(ij) {
            v.extend(sorted(&pos, b.chain_stones(id as usize).map(|s| s.coord)));
        }
        idx(&mut v);
        d.pts(&v);
        let s = b.get_group_from_point(goban::pieces::stones::Point { coord: ij, color: b.get_color(ij) });
        d.pts(&sorted(&pos, s.into_iter().map(|p| p.coord)));
    }
    let mut all: Vec<u64> = vec![];
    for c in b.chains() {
        let mut e = Dig::new();
        e.u(c.num_stones as u64).u(c.is_atari() as u64).u(c.is_dead() as u64).u(c.number_of_liberties() as u64);
        for p in (0..n).step_by(step) {
            e.u(c.contains_liberty(p as _) as u64);
        }
        all.push(e.0);
    }
    all.sort_unstable();
    for e in all {
        d.u(e);
    }
    d.0
}

struct Rec {
    d: Dig,
    stride: usize,
    k: usize,
}
impl Rec {
    fn queries(&mut self, cx: &mut Ctx, t: &Track) {
        let deep = !tiny() && t.pos.n() <= 100 && (self.k / self.stride) % 3 == 0;
        cx.hit("states_recorded");
        let o = cx.drv("queries", || game_obs(&t.g, t.h, t.w, deep));
        self.d.u(o.common());
        cx.eval(o.common(), t.plays > 0);
        let full = !tiny() && (self.k / self.stride) % 5 == 0;
        let v = cx.drv("every other query", || sweep(&t.g, t.h, t.w, full));
        self.d.u(v);
        let e = t.pos.empties();
        for x in 0..6.min(e.len()) {
            let p = e[(x * 7919 + t.plays * 31) % e.len()];
            let ij = t.pos.ij(p);
            let g = &t.g;
            let suicide_free = t.illegal & SUICIDE == 0 || !t.is_suicide(p);
            let v = cx.drv("lookahead", || {
                let mut d = Dig::new();
                for c in [B, W] {
                    let s = Stone { coord: ij, color: col(c) };
                    d.u(g.check_suicide(s) as u64).u(g.check_eye(s) as u64).u(g.check_ko(s) as u64);
                }
                d.u(g.will_capture(ij) as u64).u(g.has_liberties(ij) as u64);
                if suicide_free {
                    let b = g.play_for_verification(ij);
                    d.u(b.zobrist_hash()).u(chain_digest(&b)).pos(&observe(&b, t.h, t.w));
                    d.u(g.check_super_ko(Stone { coord: ij, color: g.turn() }) as u64);
                }
                d.pts(&sorted(&t.pos, g.get_liberties(ij)));
                d.0
            });
            self.d.u(v);
        }
        let g = &t.g;
        let v = cx.drv("scores and searches", || {
            let mut d = Dig::new();
            for bits in 0..8 {
                let s = g.calculate_score_by(sflags(bits));
                d.u((s.0.to_bits() as u64) << 32 | s.1.to_bits() as u64);
            }
            let m = g.matrix();
            for r in m {
                for c in r {
                    d.u(uncol(c) as u64);
                }
            }
            let mut parts: Vec<Vec<usize>> = g
                .get_chains_from_stones(g.get_stones().map(|s| goban::pieces::stones::Point { coord: s.coord, color: Some(s.color) }))
                .into_iter()
                .map(|c| sorted(&t.pos, c.into_iter().map(|p| p.coord)))
                .collect();
            parts.sort();
            for p in parts {
                d.pts(&p);
            }
            d.0
        });
        self.d.u(v);
        #[cfg(feature = "full")]
        if t.plays % 4 == 0 {
            // exercised here for its internal checks; only other builds with the feature could be compared
            std::hint::black_box(cx.drv("get_floating_stones", || t.g.get_floating_stones().len()));
        }
    }
}
impl Mon for Rec {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride == 0 || t.plays == 0 || t.paused() {
            self.queries(cx, t);
        }
        Ok(())
    }
    fn event(&mut self, _cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        self.d.u(err_code(e.res.err())).pos(&t.pos).u(t.turn as u64);
        let p = t.g.prisoners();
        self.d.u((p.0 as u64) << 32 | p.1 as u64).u(t.g.zobrist_hash());
        Ok(())
    }
    fn end(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.queries(cx, t);
        Ok(())
    }
}

fn game_part(cx: &mut Ctx) -> R<u64> {
    let c = *cx.rng.pick(&[SizeClass::Any, SizeClass::Any, SizeClass::Small, SizeClass::Tiny]);
    let c = if tiny() { SizeClass::Tiny } else { c };
    let mut s = setup(&mut cx.rng, c);
    if cx.rng.p(0.2) && !tiny() {
        let (h, w) = (cx.rng.r(2, 9), cx.rng.r(2, 9));
        s = setup_sized(&mut cx.rng, h, w);
        let mut p = Pos::new(h, w);
        kos(&mut cx.rng, &mut p);
        settle(&mut p, B);
        s.stones = stones_of(&p).into_iter().map(|q| (q, p.c[q])).collect();
    }
    let n = s.h * s.w;
    let mut len = capped_len(cx, n, if n > 150 { 500 } else { 300 });
    if tiny() {
        len = len.min(14);
    }
    let mut pol = policy(&mut cx.rng, len);
    pol.resign = *cx.rng.pick(&[0.0, 0.0, 0.02]);
    let stride = if tiny() { 8 } else { (8 + n / 4).min(2 + len / 4) };
    let mut m = Rec { d: Dig::new(), stride, k: 0 };
    super::rules::record_result(cx, &mut s);
    let mut t = start(cx, s);
    run(cx, &mut t, &pol, &mut m)?;
    // changing the komi only moves the score
    let k = komi(&mut cx.rng);
    t.apply(cx, Act::Komi(k)).ok();
    m.queries(cx, &t);
    let acts = cx.acts.len();
    cx.sample_game(&t, acts);
    Ok(m.d.0)
}

/// Board editing, recorded.
fn edit_part(cx: &mut Ctx) -> R<u64> {
    let c = if tiny() { SizeClass::Tiny } else { SizeClass::Any };
    let (h, w) = size(&mut cx.rng, c);
    let blank = Pos::new(h, w);
    let n = h * w;
    let mut d = Dig::new();
    let mut g = cx.drv("new", || Goban::new((h as u8, w as u8)));
    let ops = if tiny() { 12 } else { cx.rng.r(10, 200) };
    let crowd = cx.rng.f();
    if cx.rng.p(0.2) {
        // long walls of one colour, some points apart: chains with as many liberties as a board allows
        let c = 1 + cx.rng.n(2) as u8;
        let (every, down) = (cx.rng.r(2, 4), cx.rng.p(0.5));
        let spine = cx.rng.n(if down { w } else { h });
        let v: Vec<(u8, u8)> = (0..n)
            .map(|p| blank.ij(p))
            .filter(|&(i, j)| {
                let (a, b) = if down { (i, j as usize) } else { (j, i as usize) };
                a as usize % every == 0 || b == spine
            })
            .collect();
        if v.len() < n {
            cx.note(format!("push_many {v:?} {c:?}"));
            cx.drv("push_many", || g.push_many(&v, col(c)));
            let q = v[cx.rng.n(v.len())];
            let ids = cx.drv("get_connected_groups_idx", || g.get_connected_groups_idx(q));
            d.u(ids.len() as u64);
            cx.max("liberties_of_a_chain", g.chains().map(|c| c.number_of_liberties() as u64).max().unwrap_or(0));
        }
    }
    for k in 0..ops {
        let pos = observe(&g, h, w);
        let e = pos.empties();
        let full = 1.0 - e.len() as f64 / n as f64;
        if !e.is_empty() && (e.len() == n || full < crowd || cx.rng.p(0.4)) {
            let c = col(1 + cx.rng.n(2) as u8);
            if cx.rng.p(0.2) {
                let mut e = e.clone();
                cx.rng.shuffle(&mut e);
                e.truncate(cx.rng.n(5));
                let v: Vec<(u8, u8)> = e.iter().map(|&p| blank.ij(p)).collect();
                cx.note(format!("push_many {v:?} {c:?}"));
                cx.drv("push_many", || g.push_many(&v, c));
            } else {
                let p = blank.ij(*cx.rng.pick(&e));
                cx.note(format!("push {p:?} {c:?}"));
                cx.drv("push", || g.push(p, c).size());
            }
            cx.hit("edits");
        } else {
            let ids = cx.drv("get_connected_groups_idx", || g.get_connected_groups_idx(blank.ij(k * 31 % n)));
            if let Some(&id) = ids.first() {
                cx.note(format!("remove_chain {id}"));
                cx.drv("remove_chain", || g.remove_chain(id));
                cx.hit("edits");
            }
        }
        d.u(g.zobrist_hash());
        if k % 8 == 0 || k + 1 == ops {
            cx.drv("board queries", || {
                for (_, v) in board_obs(&g, h, w) {
                    d.u(v);
                }
            });
            cx.eval(d.0, true);
        }
    }
    let c2 = cx.drv("clone", || g.clone());
    d.u((c2 == g) as u64).u((std_hash(&c2) == std_hash(&g)) as u64);
    Ok(d.0)
}

fn sgf_part(cx: &mut Ctx) -> R<u64> {
    if cfg!(miri) {
        // the parser dependency looks at the stack pointer by foreign code
        return edit_part(cx);
    }
    let mut d = Dig::new();
    for _ in 0..3 {
        let text = sgf::any_text(cx)?;
        cx.acts.clear();
        if !sgf_parser_survives(&text) {
            d.u(77);
            continue;
        }
        cx.note(format!("text {text:?}"));
        match cx.drv("from_sgf", || Game::from_sgf(&text)) {
            Err(_) => {
                d.u(1);
                cx.hit("records_refused");
            }
            Ok(g) => {
                cx.hit("records_imported");
                let (h, w) = g.size();
                let o = cx.drv("queries", || game_obs(&g, h as usize, w as usize, false));
                d.u(o.common());
                cx.eval(o.common(), true);
            }
        }
    }
    Ok(d.0)
}

fn builder_part(cx: &mut Ctx) -> R<u64> {
    let mut d = Dig::new();
    let c = if tiny() { SizeClass::Tiny } else { SizeClass::Any };
    let s = setup(&mut cx.rng, c);
    let mut b = Game::builder();
    b.size((s.h as u8, s.w as u8)).rule(Rule { ..s.rule() });
    let blank = s.pos();
    for &(q, c) in &s.stones {
        b.add(Stone { coord: blank.ij(q), color: col(c) });
    }
    if cx.rng.p(0.2) {
        // handicap points, few or nearly all of the board
        let class = *cx.rng.pick(&[SizeClass::Any, SizeClass::Full, SizeClass::Medium]);
        let (h, w) = if tiny() { (s.h, s.w) } else { size(&mut cx.rng, class) };
        let e = Pos::new(h, w);
        let n = h * w;
        let mut pts: Vec<(u8, u8)> = (0..n).map(|p| e.ij(p)).collect();
        cx.rng.shuffle(&mut pts);
        let most = if cx.rng.p(0.5) { n - 1 } else { 9.min(n - 1) };
        pts.truncate(cx.rng.n(most + 1));
        cx.note(format!("{h}x{w} handicap points {pts:?}"));
        let komi = komi(&mut cx.rng);
        let mut b = Game::builder();
        b.size((h as u8, w as u8)).put_handicap(&pts).komi(komi).rule(s.rule());
        let r = cx.drv("build", || b.build());
        d.u(r.is_ok() as u64);
        let mut games: Vec<Game> = r.into_iter().collect();
        games.push(cx.drv("put_handicap", || {
            let mut g = Game::new(goban::rules::GobanSizes::Custom(h, w), s.rule());
            g.put_handicap(&pts);
            g
        }));
        for mut g in games {
            let o = cx.drv("queries", || game_obs(&g, h, w, false));
            d.u(o.common());
            let q = cx.rng.n(n);
            if let Some(p) = (0..n).map(|k| e.ij((k + q) % n)).find(|&p| cx.drv("check_point", || g.check_point(p)).is_none()) {
                cx.drv("play", || g.play(Move::Play(p.0, p.1)).turn());
                let o = cx.drv("queries", || game_obs(&g, h, w, false));
                d.u(o.common());
            }
            cx.eval(d.0, true);
        }
        cx.max("handicap_points", pts.len() as u64);
        cx.hit("handicaps_placed");
        return Ok(d.0);
    }
    let mut moves = vec![];
    let mut t = Track::from_game(s.h, s.w, s.illegal, s.game());
    cx.setup = Some(s.clone());
    let steps = if tiny() { 4 } else { cx.rng.n(40) };
    for _ in 0..steps {
        let e = t.pos.empties();
        if e.is_empty() || t.paused() {
            break;
        }
        let p = *cx.rng.pick(&e);
        let m = if cx.rng.p(0.1) { Move::Pass } else { t.mv(p) };
        if t.apply(cx, Act::Try(m)).is_ok() {
            moves.push(m);
        }
    }
    b.moves(&moves).turn(col(s.turn));
    let r = cx.drv("build", || b.build());
    match r {
        Err(_) => {
            d.u(1);
        }
        Ok(g) => {
            let o = cx.drv("queries", || game_obs(&g, s.h, s.w, false));
            d.u(o.common());
            cx.eval(o.common(), true);
        }
    }
    cx.hit("games_built");
    Ok(d.0)
}

/// One recorded sequence of supported calls: a digest of everything they showed.
pub fn transcript(cx: &mut Ctx) -> R<u64> {
    if !tiny() && cx.rng.p(0.0006) {
        return super::rules::endless_game(cx, 80_000);
    }
    match cx.rng.n(12) {
        0..=6 => game_part(cx),
        7 | 8 => edit_part(cx),
        9 => builder_part(cx),
        _ => sgf_part(cx),
    }
}

// ---------------------------------------------------------------- C21

fn sub(cx: &Ctx, k: u64) -> Ctx {
    let mut c = Ctx::new("C21", cx.tier, cx.seed, cx.ncases);
    c.start_case(cx.case * 64 + k);
    c
}
fn record(cx: &Ctx, k: u64) -> R<(u64, Ctx)> {
    let mut c = sub(cx, k);
    let d = transcript(&mut c)?;
    Ok((d, c))
}
fn absorb(cx: &mut Ctx, c: Ctx) {
    for (k, v) in c.counters {
        cx.add(&k, v);
    }
    for (k, v) in c.maxima {
        cx.max(&k, v);
    }
}

pub fn c21(cx: &mut Ctx) -> R {
    let n = if tiny() { 2 } else { 6 };
    let mut want = vec![];
    for k in 0..n {
        let (d, c) = record(cx, k)?;
        absorb(cx, c);
        want.push(d);
    }
    // again, in another order, with other work and other allocations in between
    let mut junk: Vec<Vec<u8>> = vec![];
    for k in (0..n).rev() {
        junk.push(vec![0xa5; 1000 + 337 * k as usize]);
        if k % 2 == 0 {
            junk.remove(0);
        }
        let (d, _) = record(cx, k)?;
        ensure!(d == want[k as usize], "the same calls gave other observables the second time (sub-case {k})");
        cx.eval(d, true);
    }
    cx.add("transcripts_repeated", n);
    let mut all = Dig::new();
    for d in &want {
        all.u(*d);
    }
    cx.digest = Some(all.0);
    #[cfg(feature = "threads")]
    threads(cx, &want)?;
    let case = cx.case;
    cx.sample(|| format!("case {case}: {n} transcripts, digests {want:x?}"));
    Ok(())
}

/// The answers of every point query of a game, in a row.
#[cfg(feature = "threads")]
fn answers(g: &Game, h: usize, w: usize, out: &mut Vec<u32>) {
    out.clear();
    for i in 0..h as u8 {
        for j in 0..w as u8 {
            let s = Stone { coord: (i, j), color: g.turn() };
            let mut a = uncol(g.get_color((i, j))) as u32;
            if a == 0 {
                a = (g.will_capture((i, j)) as u32) << 2 | (g.check_suicide(s) as u32) << 3 | (g.check_ko(s) as u32) << 4 | (g.check_eye(s) as u32) << 5;
                a |= (err_code(g.check_point((i, j))) as u32) << 6 | (g.has_liberties((i, j)) as u32) << 10 | (g.get_connected_groups_idx((i, j)).len() as u32) << 11;
            }
            out.push(a);
        }
    }
}

/// The same point queries of two shared games at the same moment in every thread, many times.
#[cfg(feature = "threads")]
fn hammer(cx: &mut Ctx, t: &Track, k: usize) -> R {
    use std::sync::Barrier;
    let s = setup_sized(&mut cx.rng, t.h, t.w);
    let pol = policy(&mut cx.rng, if tiny() { 4 } else { 60 });
    let mut o = Track::from_game(s.h, s.w, s.illegal, s.game());
    run(cx, &mut o, &pol, &mut Nothing)?;
    let games = [&t.g, &o.g];
    let (h, w) = (t.h, t.w);
    let mut want = [vec![], vec![]];
    for x in 0..2 {
        answers(games[x], h, w, &mut want[x]);
    }
    let rounds = if tiny() { 2 } else { (40_000 / (h * w)).min(400) };
    let barrier = Barrier::new(k);
    let bad: Vec<String> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for th in 0..k {
            let (barrier, want) = (&barrier, &want);
            hs.push(sc.spawn(move || {
                let mut got = vec![];
                let mut bad = vec![];
                for r in 0..rounds {
                    if r % 8 == 0 {
                        barrier.wait();
                    }
                    let x = (r / 2 + if r % 3 == 0 { th } else { 0 }) % 2;
                    let call = std::panic::AssertUnwindSafe(|| answers(games[x], h, w, &mut got));
                    if std::panic::catch_unwind(call).is_err() {
                        // the others wait for this thread, so it goes on
                        bad.truncate(3);
                        bad.push(format!("thread {th}, round {r}: a query of the shared game panicked"));
                        continue;
                    }
                    if got != want[x] && bad.is_empty() {
                        let p = (0..h * w).find(|&p| got[p] != want[x][p]).unwrap();
                        bad.push(format!("thread {th}, round {r}: other answers at ({}, {}) of the shared game than the single-threaded run", p / w, p % w));
                    }
                }
                bad
            }));
        }
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["a thread panicked".into()])).collect()
    });
    ensure!(bad.is_empty(), "{}", bad.join("; "));
    cx.add("simultaneous_point_queries", (rounds * h * w * k) as u64);
    Ok(())
}

#[cfg(feature = "threads")]
fn threads(cx: &mut Ctx, want: &[u64]) -> R {
    use std::sync::Barrier;
    let n = want.len();
    let k = if tiny() { 2 } else { 4 };
    // separate games in every thread, started together, in different orders
    let barrier = Barrier::new(k);
    let shared: &Ctx = cx;
    let bad: Vec<String> = std::thread::scope(|s| {
        let mut hs = vec![];
        for th in 0..k {
            let barrier = &barrier;
            hs.push(s.spawn(move || {
                barrier.wait();
                let mut bad = vec![];
                for x in 0..n {
                    let x = (x * 5 + th * 3) % n;
                    match record(shared, x as u64) {
                        Ok((d, _)) if d == want[x] => (),
                        Ok(_) => bad.push(format!("thread {th} got other observables for sub-case {x} than the single-threaded run")),
                        Err(e) => bad.push(format!("thread {th}, sub-case {x}: {e:?}")),
                    }
                }
                bad
            }));
        }
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["a thread panicked".into()])).collect()
    });
    ensure!(bad.is_empty(), "{}", bad.join("; "));
    cx.add("transcripts_in_concurrent_threads", (n * k) as u64);
    // one game queried by many threads; copies played on meanwhile
    let c = if tiny() { SizeClass::Tiny } else { SizeClass::Any };
    let s = setup(&mut cx.rng, c);
    let len = if tiny() { 8 } else { (s.h * s.w).min(150) };
    let pol = policy(&mut cx.rng, len);
    let mut t = start(cx, s);
    run(cx, &mut t, &pol, &mut Nothing)?;
    let (h, w) = (t.h, t.w);
    let want = game_obs(&t.g, h, w, !tiny() && h * w <= 100);
    let hash = std_hash(t.g.goban());
    let game: &Game = &t.g;
    let illegal = t.illegal;
    let barrier = Barrier::new(k);
    let seed = cx.rng.u();
    let bad: Vec<String> = std::thread::scope(|s| {
        let mut hs = vec![];
        for th in 0..k {
            let (barrier, want) = (&barrier, &want);
            hs.push(s.spawn(move || {
                let mut rng = crate::rng::Rng::new(seed ^ th as u64);
                barrier.wait();
                let mut bad = vec![];
                for round in 0..3 {
                    let o = game_obs(game, h, w, !tiny() && h * w <= 100);
                    if o != *want {
                        bad.push(format!("thread {th} sees another {} of the shared game", want.diff(&o)));
                    }
                    if std_hash(game.goban()) != hash || game.goban().clone() != *game.goban() {
                        bad.push(format!("thread {th} sees another board or hash of the shared game"));
                    }
                    for p in 0..h * w {
                        let ij = ((p / w) as u8, (p % w) as u8);
                        if game.get_color(ij).is_none() && rng.p(0.1) {
                            let st = Stone { coord: ij, color: game.turn() };
                            if illegal & SUICIDE == 0 || !game.check_suicide(st) {
                                std::hint::black_box((game.check_super_ko(st), game.play_for_verification(ij)));
                            }
                        }
                    }
                    // a copy goes its own way in this thread
                    let mut own = game.clone();
                    own.resume();
                    for _ in 0..4 {
                        let l: Vec<_> = own.legals().collect();
                        if l.is_empty() {
                            break;
                        }
                        let c = *rng.pick(&l);
                        own.play(Move::Play(c.0, c.1));
                    }
                    std::hint::black_box((round, own.calculate_score()));
                }
                bad
            }));
        }
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["a thread panicked".into()])).collect()
    });
    ensure!(bad.is_empty(), "{}", bad.join("; "));
    cx.add("shared_games_queried", 1);
    cx.add("shared_query_rounds", 3 * k as u64);
    hammer(cx, &t, k)?;
    // a game made in one thread is played on in another and comes back
    let mut moved = t.g.clone();
    let mut here = t.g.clone();
    let step = |g: &mut Game| {
        g.resume();
        let l: Vec<_> = g.legals().collect();
        if let Some(&c) = l.get(l.len() / 2) {
            g.play(Move::Play(c.0, c.1));
        }
    };
    for _ in 0..3 {
        moved = std::thread::scope(|s| {
            s.spawn(move || {
                step(&mut moved);
                moved
            })
            .join()
        })
        .map_err(|_| Stop::Violation("playing in another thread panicked".into()))?;
        step(&mut here);
        let (a, b) = (game_obs(&here, h, w, false), game_obs(&moved, h, w, false));
        ensure!(a == b, "a game played on in other threads differs in {}", a.diff(&b));
    }
    cx.hit("games_moved_between_threads");
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn c22(cx: &mut Ctx) -> R {
    let d = transcript(cx)?;
    cx.digest = Some(d);
    Ok(())
}

// ---------------------------------------------------------------- C25

/// Also what is not supported, as long as it is safe code: everything may be called.
fn abuse(cx: &mut Ctx) {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let c = if tiny() { SizeClass::Tiny } else { SizeClass::Any };
    let s = setup(&mut cx.rng, c);
    let (h, w) = (s.h, s.w);
    let mut g = s.game();
    let ops = if tiny() { 10 } else { 60 };
    for _ in 0..ops {
        let near = |cx: &mut Ctx, k: usize| -> u8 {
            match cx.rng.n(6) {
                0 => k as u8,
                1 => k as u8 + 1,
                2 => *cx.rng.pick(&[18, 19, 20, 127, 128, 254, 255]),
                _ => cx.rng.n(k) as u8,
            }
        };
        let p = (near(cx, h), near(cx, w));
        let c = col(1 + cx.rng.n(2) as u8);
        let st = Stone { coord: p, color: c };
        let id = cx.rng.n(400);
        let k = cx.rng.n(26);
        let (x, y) = (cx.rng.n(600), cx.rng.n(70000));
        let mut b = g.goban().clone();
        cx.hit("abusive_calls");
        let _ = catch_unwind(AssertUnwindSafe(|| match k {
            0 => {
                g.play(Move::Play(p.0, p.1));
            }
            1 => {
                let _ = g.try_play(Move::Play(p.0, p.1));
            }
            2 => {
                g.play(Move::Pass);
            }
            3 => {
                b.push(p, c);
                b.push(p, c);
                std::hint::black_box(b.pretty_string());
            }
            4 => {
                b.remove_chain(id as _);
                std::hint::black_box(b.chains().count());
            }
            5 => {
                std::hint::black_box(b.chain_stones(id).take(1000).count());
            }
            6 => {
                std::hint::black_box((g.check_suicide(st), g.check_eye(st)));
            }
            7 => {
                std::hint::black_box((g.check_ko(st), g.check_super_ko(st)));
            }
            8 => {
                std::hint::black_box((b.get_color(p), g.check_point(p), g.will_capture(p)));
            }
            9 => {
                std::hint::black_box((b.get_color(id), b.get_connected_groups_idx(id), b.get_liberties(p).count()));
            }
            10 => {
                std::hint::black_box(g.play_for_verification(p));
            }
            11 => {
                g.put_handicap(&[p, p]);
            }
            12 => {
                std::hint::black_box((b.get_connected_points(p).count(), b.get_connected_stones(p).count(), b.has_liberties(p)));
            }
            13 => {
                b.push_many(&[p, (p.1, p.0)], c);
                let s = g.get_group_from_point(goban::pieces::stones::Point { coord: p, color: Some(c) });
                std::hint::black_box(s.len());
            }
            14 => {
                g.resume();
                g.play(Move::Resign(c));
            }
            // chain records and tables with anything in them
            15 => {
                let mut c = Group::new(c, y);
                std::hint::black_box((c.contains_liberty(x), c.number_of_liberties()));
                c.add_liberty(x);
            }
            16 => {
                let mut c = Group::new(c, x);
                c.union_liberties_slice(&[x, y, id]).remove_liberty(x);
                std::hint::black_box(c.liberties());
            }
            17 => {
                // a ring that is not one, or too short
                let ring: Vec<u16> = (0..x as u16).map(|k| if k % 7 == 0 { y as u16 } else { k + 1 }).collect();
                std::hint::black_box(Group::new(c, id).iter(&ring).take(1000).count());
            }
            18 => {
                let mut t = Groups::with_capacity(x);
                t.put_free_spot(Group::new(c, x));
                std::hint::black_box(t.iter_with_index().count());
                std::hint::black_box((t.iter().count(), t[x % 3].number_of_liberties()));
            }
            19 => {
                let mut t = Groups::with_capacity(0);
                t.put_free_spot(Group::new(c, y));
                t.remove(x % 2);
                t[0usize].add_liberties([x, y].into_iter());
            }
            20 => {
                let v = vec![Some(c); x];
                std::hint::black_box(Goban::from(&v[..]).pretty_string());
            }
            21 => {
                std::hint::black_box((Goban::new((x as u8, y as u8)).size(), GobanSizes::from(x)));
            }
            22 => {
                std::hint::black_box((b.get_connected_groups_idx(y).len(), b.get_color(y)));
            }
            23 => {
                std::hint::black_box((b.chain_stones(y).count(), b.chain_stones(p).take(1000).count()));
            }
            24 => {
                use goban::pieces::util::coord::*;
                std::hint::black_box((neighbor_coords((x as u8, y as u8)), corner_points(p), valid_coords(p, (y as u8, x as u8))));
                std::hint::black_box((one_to_2dim((h as u8, (y % 3) as u8), x), two_to_1dim((x as u8, y as u8), p)));
            }
            _ => {
                std::hint::black_box((g.calculate_score(), g.legals().count(), g.outcome()));
            }
        }));
    }
}

fn c25_body(cx: &mut Ctx) -> R {
    match cx.rng.n(if tiny() { 6 } else { 12 }) {
        0 | 1 => transcript(cx).map(|_| ()),
        2 => game_part(cx).map(|_| ()),
        3 => edit_part(cx).map(|_| ()),
        4 | 5 => {
            abuse(cx);
            Ok(())
        }
        6 => super::game::c06(cx),
        7 => super::game::c15(cx),
        8 => super::sgf::c13(cx),
        9 => super::board::c19(cx),
        10 => {
            #[cfg(feature = "full")]
            return super::game::c18(cx);
            #[cfg(not(feature = "full"))]
            super::rules::c23(cx)
        }
        _ => super::rules::c04(cx),
    }
}

pub fn c25(cx: &mut Ctx) -> R {
    let runs = if tiny() { 1 } else { 4 };
    let mut kept = vec![];
    for k in 0..runs {
        let seed = cx.case * 16 + k;
        let before = alloc::live();
        let stats = {
            let mut c = Ctx::new("C25", cx.tier, cx.seed, cx.ncases);
            c.start_case(seed);
            // verdicts of other properties are theirs; here only memory counts
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c25_body(&mut c)));
            let calm = matches!(r, Ok(Ok(())));
            drop(r);
            (c.evals, calm, c.counters.values().sum::<u64>())
        };
        crate::ctx::PANIC.with(|p| p.borrow_mut().take());
        let net = alloc::live() - before;
        cx.eval(crate::rng::mix(seed), stats.0 > 0 || stats.2 > 0);
        cx.add("events", stats.2);
        cx.hit(if stats.1 { "runs_completed" } else { "runs_cut_short" });
        if alloc::counting() && stats.1 {
            cx.hit("runs_with_memory_accounted");
            kept.push(net);
        }
    }
    // one-time initialisations settle; a leak keeps growing
    if kept.len() >= 3 {
        let t = &kept[1..];
        ensure!(!t.iter().all(|&n| n > 0), "memory is not given back after everything was dropped: {kept:?} bytes kept by {} runs", kept.len());
        let leaked: i64 = t.iter().sum();
        cx.max("bytes_kept_by_a_case", leaked.max(0) as u64);
    }
    let case = cx.case;
    cx.sample(|| format!("case {case}: net bytes after each run {kept:?}"));
    Ok(())
}
