//! Monitors of the rules of play: C01 C02 C03 C04 C05 C10 C17 C23.
use crate::ctx::*;
use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::{ensure, violated};
use goban::pieces::stones::Stone;
use goban::rules::{EndGame, Move, PlayError};

/// A random game under a monitor, with the given size class.
pub fn std_run<M: Mon>(cx: &mut Ctx, class: SizeClass, scale: f64, m: &mut M) -> R {
    let s = setup(&mut cx.rng, class);
    let len = (capped_len(cx, s.h * s.w, 1500) as f64 * scale) as usize + 2;
    let pol = policy(&mut cx.rng, len);
    std_run_with(cx, s, pol, m)
}

pub fn std_run_with<M: Mon>(cx: &mut Ctx, mut s: Setup, pol: Policy, m: &mut M) -> R {
    if !["C10", "C11"].contains(&cx.prop) {
        record_result(cx, &mut s);
    }
    let mut t = start(cx, s);
    cx.hit(&format!("kind_{}", t_kind(cx)));
    run(cx, &mut t, &pol, m)?;
    let acts = cx.acts.len();
    cx.sample_game(&t, acts);
    Ok(())
}
/// Now and then a game that is over from the start, and is played on all the same.
pub fn record_result(cx: &mut Ctx, s: &mut Setup) {
    if cx.rng.p(0.04) {
        let who = col(1 + cx.rng.n(2) as u8);
        let by = *cx.rng.pick(&[0.25, 0.5, 1.0, 7.5, 40.0]);
        s.recorded = Some(*cx.rng.pick(&[
            EndGame::Draw,
            EndGame::WinnerByScore(who, by),
            EndGame::WinnerByResign(who),
            EndGame::WinnerByTime(who),
            EndGame::WinnerByForfeit(who),
        ]));
        cx.hit("games_with_a_recorded_result");
    }
}
fn t_kind(cx: &Ctx) -> &'static str {
    cx.setup.as_ref().map_or("", |s| s.kind)
}

pub fn any_class(cx: &mut Ctx) -> SizeClass {
    *cx.rng.pick(&[SizeClass::Any, SizeClass::Any, SizeClass::Small, SizeClass::Tiny, SizeClass::Medium])
}

// ---------------------------------------------------------------- C01

pub struct C01;
impl Mon for C01 {
    fn state(&mut self, _cx: &mut Ctx, t: &Track) -> R {
        if t.plays == 0 && t.passes == 0 {
            return Ok(());
        }
        Ok(())
    }
    fn event(&mut self, cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        if e.res.is_err() {
            return Ok(());
        }
        match (e.act, e.point) {
            (Act::Try(Move::Play(..)) | Act::Raw(Move::Play(..)), Some(p)) => {
                ensure!(e.before.c[p] == E, "a play on the occupied point {:?} was accepted", t.pos.ij(p));
                let want = place(e.before, p, e.by, t.suicide_ok());
                cx.eval(want.board.hash() ^ p as u64, want.ncap() > 0 || !want.dead_own.is_empty() || t.h != t.w);
                ensure!(
                    t.pos == want.board,
                    "board after {} at {:?} (suicide {}):\nbefore\n{}observed\n{}expected\n{}",
                    ['-', 'X', 'O'][e.by as usize],
                    t.pos.ij(p),
                    if t.suicide_ok() { "permitted" } else { "forbidden" },
                    e.before.show(),
                    t.pos.show(),
                    want.board.show()
                );
            }
            _ => {
                cx.eval(t.pos.hash(), false);
                ensure!(t.pos == *e.before, "{:?} changed the board:\nbefore\n{}after\n{}", e.act, e.before.show(), t.pos.show());
            }
        }
        Ok(())
    }
}

pub fn c01(cx: &mut Ctx) -> R {
    if tour(cx, false, || C01)? {
        return Ok(());
    }
    match cx.rng.n(10) {
        0 => giant_capture(cx, &mut C01),
        1 => multi_capture(cx, &mut C01),
        2 => {
            // long games on the largest boards
            let s = setup(&mut cx.rng, SizeClass::Full);
            let pol = policy(&mut cx.rng, 900);
            std_run_with(cx, s, pol, &mut C01)
        }
        _ => {
            let c = any_class(cx);
            // checks the setup itself too: the start must show exactly the stones asked for
            let s = setup(&mut cx.rng, c);
            let want = s.pos();
            let len = capped_len(cx, s.h * s.w, 1500);
            let pol = policy(&mut cx.rng, len);
            let mut t = start(cx, s);
            ensure!(t.pos == want, "the set-up board is not the one asked for:\nobserved\n{}expected\n{}", t.pos.show(), want.show());
            run(cx, &mut t, &pol, &mut C01)?;
            let n = cx.acts.len();
            cx.sample_game(&t, n);
            Ok(())
        }
    }
}

/// Nearly the whole board is one chain (or a few) and gets captured at once.
pub fn giant_capture<M: Mon>(cx: &mut Ctx, m: &mut M) -> R {
    let (h, w) = if cx.rng.p(0.3) { (19, 19) } else { size(&mut cx.rng, SizeClass::Any) };
    let mut s = setup_sized(&mut cx.rng, h, w);
    let n = h * w;
    if n < 3 {
        return Ok(());
    }
    let c = 1 + cx.rng.n(2) as u8;
    let hole = cx.rng.n(n);
    let mut p = Pos::new(h, w);
    p.c.fill(c);
    p.c[hole] = E;
    let holes = if cx.rng.p(0.4) { 0 } else { cx.rng.n(4) };
    for _ in 0..holes {
        p.c[cx.rng.n(n)] = E;
    }
    if cx.rng.p(0.35) {
        // two giants, or a giant and a few stones, by one move
        let gap = wall(&mut cx.rng, &mut p);
        let c2 = p.nb(gap).map(|q| p.c[q]).find(|&x| x != E).unwrap_or(c);
        s.turn = opp(c2);
        settle(&mut p, s.turn);
        s.stones = (0..n).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
        cx.rng.shuffle(&mut s.stones);
        s.turn = 1 + cx.rng.n(2) as u8;
        s.kind = "wall";
        let mut pol = policy(&mut cx.rng, 40 + n.min(60));
        pol.modes = vec![(Mode::CaptureBig, 1.0), (Mode::Random, 0.3), (Mode::Capture, 0.5)];
        return std_run_with(cx, s, pol, m);
    }
    if cx.rng.p(0.4) {
        for _ in 0..cx.rng.n(1 + n / 6) {
            let q = cx.rng.n(n);
            p.c[q] = opp(c);
        }
        p.c[hole] = E;
        settle(&mut p, opp(c));
    }
    s.stones = (0..n).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
    cx.rng.shuffle(&mut s.stones);
    s.turn = opp(c);
    s.kind = "giant";
    let mut pol = policy(&mut cx.rng, 40 + n.min(60));
    pol.modes = vec![(Mode::CaptureBig, 1.0), (Mode::Random, 0.4), (Mode::SelfCapture, 0.2), (Mode::Repeat, 0.1)];
    std_run_with(cx, s, pol, m)
}

/// A point where up to four chains are captured, or merged, at once.
pub fn multi_capture<M: Mon>(cx: &mut Ctx, m: &mut M) -> R {
    if cx.rng.p(0.2) && !crate::props::total::tiny() {
        // hundreds of chains at once
        let (h, w) = if cx.rng.p(0.7) { (19, 19) } else { size(&mut cx.rng, SizeClass::Large) };
        let mut s = setup_sized(&mut cx.rng, h, w);
        let mut p = Pos::new(h, w);
        crowd(&mut cx.rng, &mut p);
        cx.max("chains_at_once", Ana::of(&p).groups.len() as u64);
        s.stones = (0..h * w).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
        cx.rng.shuffle(&mut s.stones);
        s.turn = 1 + cx.rng.n(2) as u8;
        s.kind = "crowd";
        let mut pol = policy(&mut cx.rng, 110);
        pol.modes = vec![(Mode::Capture, 1.0), (Mode::Join, 0.3), (Mode::Random, 0.1)];
        return std_run_with(cx, s, pol, m);
    }
    let (h, w) = (cx.rng.r(3, 19), cx.rng.r(3, 19));
    let mut s = setup_sized(&mut cx.rng, h, w);
    let mut p = Pos::new(h, w);
    let me = 1 + cx.rng.n(2) as u8;
    let joined = cx.rng.p(0.4);
    for _ in 0..cx.rng.r(1, 4) {
        let x = cx.rng.n(h * w);
        if p.c[x] != E {
            continue;
        }
        let nbs: Vec<usize> = p.nb(x).collect();
        for &q in &nbs {
            // a short arm of the opponent (or of the player) starting at q, walled in
            let arm = if joined { me } else { opp(me) };
            if p.c[q] != E {
                continue;
            }
            p.c[q] = arm;
            let mut cells = vec![q];
            for _ in 0..cx.rng.n(4) {
                let last = *cells.last().unwrap();
                let nx: Vec<usize> = p.nb(last).filter(|&r| p.c[r] == E && r != x && !p.nb(r).any(|k| k == x)).collect();
                if nx.is_empty() {
                    break;
                }
                let r = *cx.rng.pick(&nx);
                p.c[r] = arm;
                cells.push(r);
            }
            for &c in &cells {
                let nx: Vec<usize> = p.nb(c).collect();
                for r in nx {
                    if p.c[r] == E && r != x && cx.rng.p(0.95) {
                        p.c[r] = opp(arm);
                    }
                }
            }
        }
    }
    settle(&mut p, me);
    s.stones = (0..p.n()).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
    cx.rng.shuffle(&mut s.stones);
    s.turn = me;
    s.kind = "multi";
    let mut pol = policy(&mut cx.rng, 30);
    pol.modes = vec![(Mode::Capture, 0.6), (Mode::Join, 0.4), (Mode::CaptureBig, 0.3), (Mode::Random, 0.1), (Mode::SelfCapture, 0.2)];
    std_run_with(cx, s, pol, m)
}

// ---------------------------------------------------------------- C02

/// Conservation ledger: stones that left the board, by colour.
#[derive(Default)]
pub struct C02 {
    left: [u64; 3],
    placed: [u64; 3],
    started: bool,
}
impl C02 {
    fn balance(&self, t: &Track) -> R {
        let p = t.g.prisoners();
        // prisoners().0: captured by Black, i.e. white stones that left
        ensure!(
            p.0 as u64 == self.left[W as usize] && p.1 as u64 == self.left[B as usize],
            "prisoners {:?}, but {} white and {} black stones have left the board\n{}",
            p,
            self.left[W as usize],
            self.left[B as usize],
            t.pos.show()
        );
        for c in [B, W] {
            ensure!(
                self.placed[c as usize] == t.pos.count(c) as u64 + self.left[c as usize],
                "stones of colour {c}: placed {}, on board {}, prisoners {}",
                self.placed[c as usize],
                t.pos.count(c),
                self.left[c as usize]
            );
        }
        Ok(())
    }
}
impl Mon for C02 {
    fn state(&mut self, _cx: &mut Ctx, t: &Track) -> R {
        if !self.started {
            self.started = true;
            for c in [B, W] {
                self.placed[c as usize] = t.pos.count(c) as u64;
            }
        }
        self.balance(t)
    }
    fn event(&mut self, cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        let now = t.g.prisoners();
        if e.res.is_ok() {
            if let Some(p) = e.point {
                let mut after_placing = e.before.clone();
                if after_placing.c[p] != E {
                    return Err(Stop::Blocked("a play on an occupied point was accepted".into()));
                }
                after_placing.c[p] = e.by;
                self.placed[e.by as usize] += 1;
                let mut removed = 0;
                for q in 0..t.pos.n() {
                    if after_placing.c[q] != t.pos.c[q] {
                        if t.pos.c[q] != E {
                            return Err(Stop::Blocked("a stone appeared or changed colour".into()));
                        }
                        self.left[after_placing.c[q] as usize] += 1;
                        removed += 1;
                    }
                }
                cx.add("stones_left_the_board", removed);
                cx.max("prisoners_of_one_player", now.0.max(now.1) as u64);
                cx.eval(t.pos.hash() ^ ((now.0 as u64) << 32) ^ now.1 as u64, removed > 0);
                ensure!(
                    now.0 >= e.prisoners.0 && now.1 >= e.prisoners.1,
                    "prisoners decreased from {:?} to {now:?}",
                    e.prisoners
                );
                return self.balance(t);
            }
        }
        cx.eval(0, false);
        ensure!(now == e.prisoners, "{:?} ({:?}) changed the prisoners from {:?} to {now:?}", e.act, e.res, e.prisoners);
        Ok(())
    }
}

/// One game on a tiny board, long enough for prisoners beyond any small counter.
pub fn endless_game(cx: &mut Ctx, plays: u64) -> R<u64> {
    let (h, w) = *cx.rng.pick(&[(1, 1), (1, 2), (2, 2), (2, 3), (3, 2), (1, 5), (3, 3)]);
    let mut s = setup_sized(&mut cx.rng, h, w);
    s.stones.clear();
    s.via = 0;
    s.illegal = if h * w == 1 { KO } else { *cx.rng.pick(&[0, SUICIDE, KO, KO | SUICIDE]) };
    let t = start(cx, s);
    let (mut g, mut pos) = (t.g, t.pos);
    let mut left = [0u64; 3];
    let n = pos.n();
    let (mut done, mut passes) = (0, 0);
    while done < plays {
        let by = uncol(Some(g.turn()));
        let q = cx.rng.n(n);
        let p = (0..n).map(|k| (q + k) % n).find(|&p| pos.c[p] == E && g.check_point(pos.ij(p)).is_none());
        let Some(p) = p else {
            if passes >= 2 {
                break;
            }
            passes += 1;
            cx.drv("pass", || g.play(Move::Pass).turn());
            continue;
        };
        if passes == 2 {
            g.resume();
        }
        passes = 0;
        let (i, j) = pos.ij(p);
        cx.drv("play", || g.play(Move::Play(i, j)).turn());
        pos.c[p] = by;
        for q in 0..n {
            let now = uncol(g.goban().get_color(pos.ij(q)));
            if now != pos.c[q] {
                left[pos.c[q] as usize] += 1;
                pos.c[q] = now;
            }
        }
        done += 1;
        let now = g.prisoners();
        ensure!(
            now.0 as u64 == left[W as usize] && now.1 as u64 == left[B as usize],
            "play {done} of a game on a {h}x{w} board: prisoners {now:?}, but {} white and {} black stones have left the board",
            left[W as usize],
            left[B as usize]
        );
    }
    cx.add("plays", done);
    cx.max("prisoners_of_one_player", left[B as usize].max(left[W as usize]));
    cx.hit("endless_games");
    let seen = left[B as usize] << 32 ^ left[W as usize];
    cx.eval(seen, true);
    Ok(seen ^ pos.hash())
}

pub fn c02(cx: &mut Ctx) -> R {
    if tour(cx, true, || C02::default())? {
        return Ok(());
    }
    let mut m = C02::default();
    if cx.rng.p(0.0012) {
        let plays = if cx.thorough() { 700_000 } else { 180_000 };
        return endless_game(cx, plays).map(|_| ());
    }
    match cx.rng.n(10) {
        0 => giant_capture(cx, &mut m),
        1 => multi_capture(cx, &mut m),
        2 => {
            let s = setup(&mut cx.rng, SizeClass::Full);
            let mut pol = policy(&mut cx.rng, 1500);
            pol.modes.push((Mode::Capture, 1.0));
            std_run_with(cx, s, pol, &mut m)
        }
        3 => {
            // long capturing races on tiny boards: thousands of prisoners
            let s = setup(&mut cx.rng, SizeClass::Tiny);
            let mut pol = policy(&mut cx.rng, 3000);
            pol.modes.push((Mode::Capture, 1.0));
            pol.modes.push((Mode::SelfCapture, 0.5));
            std_run_with(cx, s, pol, &mut m)
        }
        4..=5 => {
            let c = any_class(cx);
            let mut s = setup(&mut cx.rng, c);
            s.illegal &= !SUICIDE;
            let mut pol = policy(&mut cx.rng, 300);
            pol.modes.push((Mode::SelfCapture, 1.0));
            std_run_with(cx, s, pol, &mut m)
        }
        _ => {
            let c = any_class(cx);
            std_run(cx, c, 1.0, &mut m)
        }
    }
}

// ---------------------------------------------------------------- C03

pub struct C03 {
    pub stride: usize,
    k: usize,
}
impl C03 {
    pub fn new(stride: usize) -> Self {
        C03 { stride, k: 0 }
    }
}

fn reasons(t: &Track, p: usize, bits: u32) -> (bool, bool, bool) {
    (
        t.pos.c[p] != E,
        t.pos.c[p] == E && bits & SUICIDE != 0 && t.is_suicide(p),
        t.pos.c[p] == E && bits & KO != 0 && t.is_ko(p),
    )
}

fn verdict_ok(got: Option<PlayError>, (occ, sui, ko): (bool, bool, bool)) -> bool {
    match got {
        None => !occ && !sui && !ko,
        Some(PlayError::PointNotEmpty) => occ,
        Some(PlayError::Suicide) => sui,
        Some(PlayError::Ko) => ko,
        _ => false,
    }
}

impl Mon for C03 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        let recent_capture = t.before_last.as_ref().is_some_and(|b| b.count(t.turn) > t.pos.count(t.turn));
        if self.k % self.stride != 0 && !recent_capture {
            return Ok(());
        }
        let (mut kos, mut suis) = (0, 0);
        for p in 0..t.pos.n() {
            for bits in 0..4u32 {
                let bits = (bits & 1) * KO + (bits >> 1) * SUICIDE;
                let want = reasons(t, p, bits);
                let got = t.g.check_point_by(t.pos.ij(p), flags(bits));
                kos += want.2 as u64;
                suis += want.1 as u64;
                ensure!(
                    verdict_ok(got, want),
                    "point {:?} for {} under {}: verdict {:?}, but occupied={} suicide={} ko={}\nboard\n{}before the last play\n{}",
                    t.pos.ij(p),
                    ['-', 'X', 'O'][t.turn as usize],
                    rule_name(bits),
                    got,
                    want.0,
                    want.1,
                    want.2,
                    t.pos.show(),
                    t.before_last.as_ref().map_or("(no play)\n".into(), |b| b.show())
                );
            }
        }
        cx.add("points_judged", t.pos.n() as u64 * 4);
        cx.add("ko_points", kos / 2);
        cx.add("suicide_points", suis / 2);
        cx.eval(t.pos.hash() ^ t.turn as u64 ^ kos << 8, kos > 0 || suis > 0);
        Ok(())
    }
    fn event(&mut self, _cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        // the verdict of the checked interface itself; the state before the event is the one judged
        let Act::Try(Move::Play(..)) = e.act else { return Ok(()) };
        let p = e.point.unwrap();
        if e.res == Err(PlayError::GamePaused) || t.illegal & (SUPERKO | FILLEYE) != 0 || self.paused_before(t, e) {
            return Ok(());
        }
        let occ = e.before.c[p] != E;
        let sui = !occ && t.illegal & SUICIDE != 0 && e.before_ana.self_capture(e.before, p, e.by);
        match e.res {
            Ok(()) => ensure!(!occ && !sui, "an illegal play at {:?} was accepted (occupied={occ} suicide={sui})\n{}", t.pos.ij(p), e.before.show()),
            Err(PlayError::PointNotEmpty) => ensure!(occ, "{:?} refused as occupied, but it is empty\n{}", t.pos.ij(p), e.before.show()),
            Err(PlayError::Suicide) => ensure!(sui, "{:?} refused as suicide, but it is not\n{}", t.pos.ij(p), e.before.show()),
            Err(PlayError::Ko) => {
                // refused: the state is unchanged, so the ko can be judged now
                if t.pos == *e.before {
                    ensure!(t.is_ko(p), "{:?} refused as ko, but no ko is being retaken\n{}", t.pos.ij(p), e.before.show())
                }
            }
            Err(x) => violated!("{:?} refused with {x:?} under {}", t.pos.ij(p), rule_name(t.illegal)),
        }
        Ok(())
    }
}
impl C03 {
    fn paused_before(&self, t: &Track, e: &Ev) -> bool {
        e.res.is_err() && t.paused()
    }
}

pub fn c03(cx: &mut Ctx) -> R {
    if tour(cx, false, || C03::new(1))? {
        return Ok(());
    }
    match cx.rng.n(12) {
        0..=3 => {
            // fields of ko shapes: takes, retakes, threats, passes in between
            let (h, w) = (cx.rng.r(2, 19), cx.rng.r(2, 19));
            ko_run(cx, h, w, &mut C03::new(2))
        }
        4 => {
            let (h, w) = *cx.rng.pick(&[(1, 5), (1, 6), (1, 9), (2, 3), (3, 2), (2, 4), (5, 1), (3, 3), (2, 19), (19, 2)]);
            ko_run(cx, h, w, &mut C03::new(1))
        }
        5 => multi_capture(cx, &mut C03::new(1)),
        6 => giant_capture(cx, &mut C03::new(3)),
        _ => {
            let c = any_class(cx);
            let mut s = setup(&mut cx.rng, c);
            if cx.rng.p(0.5) {
                s.illegal &= KO | SUICIDE;
            }
            let n = s.h * s.w;
            let len = capped_len(cx, n, 400);
            let pol = policy(&mut cx.rng, len);
            std_run_with(cx, s, pol, &mut C03::new(1 + n / 60))
        }
    }
}

/// Fields of ko shapes with play concentrated on taking and retaking.
pub fn ko_run<M: Mon>(cx: &mut Ctx, h: usize, w: usize, m: &mut M) -> R {
    let mut s = setup_sized(&mut cx.rng, h, w);
    let mut p = Pos::new(h, w);
    kos(&mut cx.rng, &mut p);
    settle(&mut p, 1 + cx.rng.n(2) as u8);
    s.stones = (0..p.n()).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
    cx.rng.shuffle(&mut s.stones);
    s.turn = 1 + cx.rng.n(2) as u8;
    s.builder = true;
    s.kind = "kofield";
    if cx.rng.p(0.5) {
        s.illegal = *cx.rng.pick(&[KO | SUICIDE, KO, SUICIDE, 0]);
    }
    let len = 60 + cx.rng.n(120);
    let mut pol = policy(&mut cx.rng, len);
    pol.modes = vec![
        (Mode::KoTake, 1.0),
        (Mode::KoPoint, 0.4),
        (Mode::Capture, 0.2),
        (Mode::Random, 0.25),
        (Mode::SelfCapture, 0.15),
        (Mode::Repeat, 0.1),
        (Mode::Atari, 0.1),
    ];
    pol.pass = *cx.rng.pick(&[0.0, 0.05, 0.15]);
    std_run_with(cx, s, pol, m)
}

// ---------------------------------------------------------------- C04

pub struct C04 {
    stride: usize,
    k: usize,
}
impl C04 {
    pub fn new(stride: usize) -> Self {
        C04 { stride, k: 0 }
    }
}
impl Mon for C04 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        let mut repeats = 0;
        // on most states of large boards only the points where something can leave the board are judged,
        // plus a few others
        let full = self.k % self.stride == 0;
        for p in 0..t.pos.n() {
            if t.pos.c[p] != E {
                continue;
            }
            let touching = !t.ana.captures(&t.pos, p, t.turn).is_empty() || t.is_suicide(p);
            if !full && !touching && !cx.rng.p(0.02) {
                continue;
            }
            // under the game's own suicide rule, with and without the ko rule
            let base = t.illegal & SUICIDE;
            if base != 0 && t.is_suicide(p) {
                continue;
            }
            let pl = t.placed(p);
            let repeat = t.stood(&pl.board);
            repeats += repeat as u64;
            for extra in [0, KO] {
                let b = base | extra;
                let without = t.g.check_point_by(t.pos.ij(p), flags(b));
                let with = t.g.check_point_by(t.pos.ij(p), flags(b | SUPERKO));
                let want = without.is_none() && !repeat;
                cx.hit("superko_verdicts");
                ensure!(
                    with.is_none() == want,
                    "point {:?} for {} under {}: {:?} without superko, {:?} with it, but the resulting board {}\nboard\n{}result\n{}{} boards stood so far",
                    t.pos.ij(p),
                    ['-', 'X', 'O'][t.turn as usize],
                    rule_name(b | SUPERKO),
                    without,
                    with,
                    if repeat { "stood before" } else { "never stood" },
                    t.pos.show(),
                    pl.board.show(),
                    t.boards.len()
                );
                if with.is_some() && without.is_none() {
                    ensure!(with == Some(PlayError::Ko), "a repetition is refused with the reason {with:?}");
                }
            }
        }
        cx.add("repetitions_judged", repeats);
        cx.eval(t.pos.hash() ^ t.turn as u64 ^ (t.boards.len() as u64) << 20, repeats > 0);
        cx.max("boards_remembered", t.boards.len() as u64);
        Ok(())
    }
    fn event(&mut self, _cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        if let (Act::Try(Move::Play(..)), Ok(())) = (e.act, e.res) {
            if t.illegal & SUPERKO != 0 {
                let n = t.boards.len();
                let earlier = t.seen[&t.pos.hash()].iter().any(|&i| (i as usize) < n - 1 && t.boards[i as usize] == t.pos);
                ensure!(!earlier, "a checked play under superko brought an earlier board back\n{}", t.pos.show());
            }
        }
        Ok(())
    }
}

/// Thousands of different boards in one game: none may be forgotten.
fn long_memory(cx: &mut Ctx) -> R {
    let (h, w) = *cx.rng.pick(&[(2, 4), (3, 3), (2, 5), (3, 4), (4, 3), (1, 9), (4, 4), (5, 4)]);
    let mut s = setup_sized(&mut cx.rng, h, w);
    s.illegal = *cx.rng.pick(&[0, 0, KO, SUICIDE, KO | SUICIDE, SUPERKO]);
    let longest = if cx.tier == Tier::Thorough && cx.rng.p(0.02) { 80_000 } else { 6_000 };
    let len = cx.rng.r(800, longest);
    let mut pol = policy(&mut cx.rng, len);
    pol.modes = vec![(Mode::Random, 1.0), (Mode::Capture, 0.3), (Mode::Repeat, 0.1), (Mode::SelfCapture, 0.1)];
    pol.pass = 0.02;
    pol.raw = *cx.rng.pick(&[0.0, 0.3]);
    pol.resign = 0.0;
    cx.hit("long_memory_games");
    std_run_with(cx, s, pol, &mut C04::new(10))
}

pub fn c04(cx: &mut Ctx) -> R {
    if cx.rng.p(0.012) {
        return long_memory(cx);
    }
    match cx.rng.n(12) {
        0..=3 => {
            // tiny boards: long cycles close by capture and by suicide
            let (h, w) = *cx.rng.pick(&[
                (1, 1), (1, 2), (2, 1), (1, 3), (1, 4), (2, 2), (1, 5), (2, 3), (3, 2), (1, 7), (3, 3), (2, 4), (4, 2), (2, 5), (3, 4),
            ]);
            let mut s = setup_sized(&mut cx.rng, h, w);
            if cx.rng.p(0.6) {
                s.stones.clear();
                s.kind = "empty";
            }
            s.illegal = SUPERKO | *cx.rng.pick(&[0, SUICIDE, KO, KO | SUICIDE]);
            if cx.rng.p(0.3) {
                s.illegal &= !SUPERKO;
            }
            let mut pol = policy(&mut cx.rng, 250);
            pol.modes = vec![(Mode::Random, 0.5), (Mode::Capture, 0.5), (Mode::Repeat, 0.3), (Mode::SelfCapture, 0.3), (Mode::KoTake, 0.2)];
            pol.pass = *cx.rng.pick(&[0.0, 0.1, 0.3]);
            pol.raw = *cx.rng.pick(&[0.0, 0.0, 0.3]);
            std_run_with(cx, s, pol, &mut C04::new(1))
        }
        4..=6 => {
            let (h, w) = (cx.rng.r(3, 9), cx.rng.r(3, 9));
            ko_run(cx, h, w, &mut C04::new(1))
        }
        7 => {
            let (h, w) = (cx.rng.r(9, 19), cx.rng.r(9, 19));
            ko_run(cx, h, w, &mut C04::new(12))
        }
        8..=9 => hash_collision_games(cx, &mut C04::new(1000)),
        10 => {
            let s = setup(&mut cx.rng, SizeClass::Large);
            let pol = policy(&mut cx.rng, 350);
            std_run_with(cx, s, pol, &mut C04::new(40))
        }
        _ => {
            let c = any_class(cx);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, 300);
            let pol = policy(&mut cx.rng, len);
            std_run_with(cx, s, pol, &mut C04::new(1 + n / 40))
        }
    }
}

/// A game whose start and a later board share the zobrist hash while being different: the superko
/// rule must not take the second for a repetition of the first, and must know a repetition of the
/// second, which two stones dying in a corner bring about.
pub fn hash_collision_games(cx: &mut Ctx, m: &mut impl Mon) -> R {
    let back = cx.rng.p(0.5);
    let top = if back { 3 } else { 0 };
    let (h, w) = (cx.rng.r(12 + top, 19), cx.rng.r(12, 19));
    let Some((mut a, mut b)) = super::board::colliding_boards(cx, h, w, true, top) else {
        cx.hit("collisions_not_found");
        return Ok(());
    };
    // a: the start; b: a plus some stones to be played, without captures, alternating as they come
    let mut s = setup_sized(&mut cx.rng, h, w);
    s.illegal = SUPERKO | if !back && cx.rng.p(0.5) { SUICIDE } else { 0 };
    let dying = 1 + cx.rng.n(2) as u8;
    if back {
        for q in [2, w, w + 1] {
            a.c[q] = opp(dying);
            b.c[q] = opp(dying);
        }
    }
    s.stones = (0..a.n()).filter(|&q| a.c[q] != E).map(|q| (q, a.c[q])).collect();
    s.kind = "collision";
    s.builder = true;
    let mut todo: [Vec<usize>; 3] = [vec![], vec![], vec![]];
    for q in 0..a.n() {
        if a.c[q] == E && b.c[q] != E {
            todo[b.c[q] as usize].push(q);
        }
    }
    cx.rng.shuffle(&mut todo[1]);
    cx.rng.shuffle(&mut todo[2]);
    s.turn = if todo[1].len() >= todo[2].len() { B } else { W };
    let mut t = start(cx, s);
    let start_hash = t.g.zobrist_hash();
    m.state(cx, &t)?;
    let mut guard = 0;
    while !(todo[1].is_empty() && todo[2].is_empty()) {
        guard += 1;
        if guard > 2000 {
            return Err(Stop::Blocked("collision game did not finish".into()));
        }
        let c = t.turn as usize;
        let act = match todo[c].last() {
            Some(&p) => Act::Try(t.mv(p)),
            None if t.passes == 1 => Act::Resume,
            None => Act::Try(Move::Pass),
        };
        if let Act::Try(Move::Play(i, j)) = act {
            let p = t.pos.idx((i, j));
            let want = t.placed(p);
            if want.ncap() > 0 || !want.dead_own.is_empty() {
                return Err(Stop::Blocked("collision game captures".into()));
            }
            let last = todo[1].len() + todo[2].len() == 1;
            let res = step(cx, &mut t, act, m)?;
            todo[c].pop();
            if last {
                if t.g.zobrist_hash() == start_hash || res.is_err() {
                    cx.hit("superko_hash_collisions_judged");
                    cx.eval(t.pos.hash(), true);
                }
                ensure!(res.is_ok(), "a board never seen before, sharing only its hash with an earlier one, is refused: {res:?}\nstart\n{}now\n{}", a.show(), b.show());
            } else {
                ensure!(res.is_ok(), "a play bringing a board never seen before is refused: {res:?}\n{}", t.pos.show());
            }
        } else {
            let _ = step(cx, &mut t, act, m)?;
        }
    }
    if back {
        if t.passes == 1 {
            let _ = step(cx, &mut t, Act::Resume, m)?;
        }
        if t.turn != dying {
            let _ = step(cx, &mut t, Act::Try(Move::Pass), m)?;
        }
        let again = t.pos.clone();
        let _ = step(cx, &mut t, Act::Try(Move::Play(0, 0)), m)?;
        let _ = step(cx, &mut t, Act::Try(Move::Pass), m)?;
        ensure!(t.placed(1).board == again, "two stones dying in the corner restore the board (harness)");
        let got = t.g.check_point((0, 1));
        let res = step(cx, &mut t, Act::Try(Move::Play(0, 1)), m)?;
        cx.hit("repetitions_of_a_board_hashed_like_another");
        ensure!(
            got == Some(PlayError::Ko) && res == Err(PlayError::Ko),
            "a play repeating a board that shares its hash with an earlier one: check_point says {got:?}, try_play {res:?}\nstart\n{}now\n{}",
            a.show(),
            t.pos.show()
        );
    }
    // one more play, before which the second board stands
    if let Some(p) = t.pos.empties().into_iter().rev().find(|&p| t.pos.nb(p).any(|q| t.pos.c[q] == E)) {
        let act = Act::Try(t.mv(p));
        let _ = step(cx, &mut t, act, m)?;
    }
    m.end(cx, &t)
}

// ---------------------------------------------------------------- C05

pub struct C05 {
    stride: usize,
    k: usize,
}
impl Mon for C05 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        let n = t.pos.n();
        let all_pairs = |what: &str, list: Vec<(u8, u8)>, want: &dyn Fn(usize) -> bool| -> R {
            let v = sorted(&t.pos, list.iter().copied());
            for w in v.windows(2) {
                ensure!(w[0] != w[1], "{what} lists {:?} twice", t.pos.ij(w[0]));
            }
            if let Some(&x) = v.last() {
                ensure!(x < n, "{what} lists a point off the board: {list:?}");
            }
            for p in 0..n {
                ensure!(
                    v.binary_search(&p).is_ok() == want(p),
                    "{what} {} {:?}, the point check says otherwise\n{}turn {}",
                    if want(p) { "misses" } else { "contains" },
                    t.pos.ij(p),
                    t.pos.show(),
                    t.turn
                );
            }
            Ok(())
        };
        let empty = |p: usize| t.pos.c[p] == E;
        all_pairs("pseudo_legals", t.g.pseudo_legals().take(4 * n + 4).collect(), &empty)?;
        all_pairs("pseudo_legals_vec", t.g.pseudo_legals_vec(), &empty)?;
        let verdicts: Vec<Option<PlayError>> = (0..n).map(|p| t.g.check_point(t.pos.ij(p))).collect();
        let list: Vec<(u8, u8)> = t.g.legals().take(4 * n + 4).collect();
        for &c in &list {
            let q = coord_idx(&t.pos, c);
            ensure!(q < n && t.pos.c[q] == E, "legals lists {c:?}, which is not an empty point of the board\n{}", t.pos.show());
        }
        let nlegal = list.len();
        all_pairs("legals", list, &|p| verdicts[p].is_none())?;
        let bits = if self.k % self.stride == 0 { (0..16).collect::<Vec<u32>>() } else { vec![cx.rng.n(16) as u32, t.illegal] };
        for b in bits {
            if b & SUPERKO != 0 && n > 100 && !cx.rng.p(0.2) {
                continue;
            }
            let l: Vec<(u8, u8)> = t.g.legals_by(flags(b)).take(4 * n + 4).collect();
            let v: Vec<bool> = (0..n).map(|p| t.g.check_point_by(t.pos.ij(p), flags(b)).is_none()).collect();
            all_pairs(&format!("legals_by({})", rule_name(b)), l, &|p| v[p])?;
            if b == t.illegal {
                for p in 0..n {
                    ensure!(v[p] == verdicts[p].is_none(), "check_point_by with the rule in force and check_point disagree on {:?}", t.pos.ij(p));
                }
            }
            cx.hit("rule_sets_compared");
        }
        // the checked play, on copies
        let all = n <= 30 || self.k % (4 * self.stride) == 0;
        if !t.paused() {
            let tries: Vec<usize> = if all {
                (0..n).collect()
            } else {
                let mut v: Vec<usize> = (0..4).map(|_| cx.rng.n(n)).collect();
                v.extend((0..n).filter(|&p| matches!(verdicts[p], Some(PlayError::Ko | PlayError::Suicide | PlayError::FillEye))).take(4));
                v
            };
            for p in tries {
                let mut g = t.g.clone();
                let r = g.try_play(t.mv(p)).map(|_| ());
                cx.hit("checked_plays_compared");
                ensure!(
                    r.err() == verdicts[p],
                    "checked play at {:?}: {r:?}, point check: {:?}, rule {}\n{}turn {}",
                    t.pos.ij(p),
                    verdicts[p],
                    rule_name(t.illegal),
                    t.pos.show(),
                    t.turn
                );
            }
        }
        let refusals = (0..n).filter(|&p| t.pos.c[p] == E).count() - nlegal.min((0..n).filter(|&p| t.pos.c[p] == E).count());
        cx.eval(t.pos.hash() ^ t.turn as u64 ^ (refusals as u64) << 40, refusals > 0);
        Ok(())
    }
}

pub fn c05(cx: &mut Ctx) -> R {
    if tour(cx, false, || C05 { stride: 1, k: 0 })? {
        return Ok(());
    }
    match cx.rng.n(8) {
        0 | 1 => {
            let (h, w) = (cx.rng.r(2, 12), cx.rng.r(2, 12));
            ko_run(cx, h, w, &mut C05 { stride: 8, k: 0 })
        }
        2 => multi_capture(cx, &mut C05 { stride: 6, k: 0 }),
        _ => {
            let c = any_class(cx);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, if n > 150 { 120 } else { 250 });
            let mut pol = policy(&mut cx.rng, len);
            pol.resign = 0.002;
            std_run_with(cx, s, pol, &mut C05 { stride: 1 + n / 12, k: 0 })
        }
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone)]
pub struct C10 {
    turn: u8,
    passes: u32,
    result: Option<EndGame>,
    resigned: Option<u8>,
}
impl C10 {
    fn check(&self, cx: &mut Ctx, t: &Track) -> R {
        ensure!(t.turn == self.turn, "{} is to play, expected {}", t.turn, self.turn);
        let over = self.passes >= 2 || self.resigned.is_some() || self.result.is_some();
        ensure!(
            t.g.is_over() == over,
            "is_over() is {}, but passes in a row: {}, resigned: {:?}, recorded result: {:?}",
            t.g.is_over(),
            self.passes,
            self.resigned,
            self.result
        );
        let got = t.g.outcome();
        cx.eval(t.pos.hash() ^ (self.passes as u64) << 50 ^ (over as u64) << 55 ^ self.turn as u64, over || self.passes > 0);
        match (over, self.resigned, self.result) {
            (false, _, _) => ensure!(got.is_none(), "the game is not over, but outcome() is {got:?}"),
            (true, Some(loser), _) => {
                cx.hit("outcomes_by_resignation");
                ensure!(
                    got == Some(EndGame::WinnerByResign(col(opp(loser)))),
                    "colour {loser} resigned, but outcome() is {got:?}"
                )
            }
            (true, None, Some(r)) => {
                cx.hit("outcomes_recorded");
                ensure!(got == Some(r), "the recorded result is {r:?}, but outcome() is {got:?}")
            }
            (true, None, None) => {
                let (b, w) = t.g.calculate_score();
                match got {
                    Some(EndGame::Draw) => {
                        cx.hit("outcomes_draw");
                        ensure!(b == w, "draw declared on scores {b} to {w}")
                    }
                    Some(EndGame::WinnerByScore(c, m)) => {
                        cx.hit("outcomes_by_score");
                        let c = uncol(Some(c));
                        ensure!(b != w, "equal scores {b}, but outcome() is {got:?}");
                        ensure!((c == B) == (b > w), "scores {b} to {w}, but outcome() is {got:?}");
                        ensure!((m - (b - w).abs()).abs() < 1e-4, "scores {b} to {w}, but the margin is {m}")
                    }
                    x => violated!("two passes, scores {b} to {w}, but outcome() is {x:?}"),
                }
            }
        }
        if let Some(o) = got {
            let winner = match o {
                EndGame::WinnerByScore(c, _) | EndGame::WinnerByResign(c) | EndGame::WinnerByTime(c) | EndGame::WinnerByForfeit(c) => Some(c),
                EndGame::Draw => None,
            };
            ensure!(o.get_winner() == winner, "get_winner() of {o:?} is {:?}", o.get_winner());
        }
        // while paused, nothing is accepted
        if self.passes == 2 {
            let n = t.pos.n();
            let p = cx.rng.n(n);
            for m in [t.mv(p), Move::Pass, Move::Resign(col(B)), Move::Resign(col(W))] {
                let mut g = t.g.clone();
                let r = g.try_play(m).map(|_| ());
                cx.hit("paused_refusals");
                ensure!(r == Err(PlayError::GamePaused), "{m:?} on a paused game: {r:?}");
            }
        } else {
            // not paused: never refused as paused
            let mut g = t.g.clone();
            let r = g.try_play(Move::Pass).map(|_| ());
            ensure!(r.is_ok(), "passing is refused with {r:?}, passes in a row: {}", self.passes);
        }
        Ok(())
    }
}
impl Mon for C10 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.check(cx, t)
    }
    fn event(&mut self, cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        let frozen = |t: &Track| -> R {
            ensure!(t.pos == *e.before, "{:?} changed the board", e.act);
            ensure!(t.g.prisoners() == e.prisoners, "{:?} changed the prisoners", e.act);
            Ok(())
        };
        match (e.act, e.res) {
            (_, Err(r)) => {
                ensure!(
                    (r == PlayError::GamePaused) == (self.passes >= 2),
                    "{:?} refused with {r:?}, passes in a row: {}",
                    e.act,
                    self.passes
                );
                frozen(t)?;
                return self.check(cx, t);
            }
            (Act::Resume, _) => {
                self.passes = 0;
                frozen(t)?;
            }
            (Act::Komi(_), _) => frozen(t)?,
            (Act::Try(m), _) | (Act::Raw(m), _) => {
                if let Act::Try(_) = e.act {
                    ensure!(self.passes < 2, "{m:?} accepted on a paused game");
                }
                match m {
                    Move::Pass => {
                        self.passes += 1;
                        self.turn = opp(self.turn);
                        frozen(t)?;
                    }
                    Move::Play(..) => {
                        self.passes = 0;
                        self.turn = opp(self.turn);
                    }
                    Move::Resign(c) => {
                        self.resigned = Some(uncol(Some(c)));
                        self.result = None;
                        frozen(t)?;
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn c10(cx: &mut Ctx) -> R {
    let c = *cx.rng.pick(&[SizeClass::Any, SizeClass::Tiny, SizeClass::Small, SizeClass::Small]);
    let mut s = setup(&mut cx.rng, c);
    // komi that lets draws happen
    if cx.rng.p(0.6) {
        s.komi = *cx.rng.pick(&[0.0, 0.0, 1.0, -1.0, 2.0, 0.5, 4.0, 0.25, -0.125, 0.0078125, 1.0078125, -0.00390625]);
    }
    let len = capped_len(cx, s.h * s.w, 200);
    let mut pol = policy(&mut cx.rng, len);
    pol.pass = *cx.rng.pick(&[0.1, 0.3, 0.6]);
    pol.resume = *cx.rng.pick(&[0.6, 0.95, 1.0]);
    pol.resign = *cx.rng.pick(&[0.0, 0.0, 0.02, 0.1]);
    let recorded = if cx.rng.p(0.12) {
        let who = col(1 + cx.rng.n(2) as u8);
        Some(*cx.rng.pick(&[
            EndGame::Draw,
            EndGame::WinnerByScore(who, 3.5),
            EndGame::WinnerByResign(who),
            EndGame::WinnerByTime(who),
            EndGame::WinnerByForfeit(who),
        ]))
    } else {
        None
    };
    if recorded.is_some() {
        pol.resign = 0.0;
    }
    let mut t = match recorded {
        None => start(cx, s),
        Some(o) => {
            let (h, w, il) = (s.h, s.w, s.illegal);
            cx.setup = Some(s.clone());
            cx.note(format!("recorded outcome {o:?}"));
            let g = cx.drv("setup", || {
                let mut b = goban::rules::game::Game::builder();
                b.size((h as u8, w as u8)).rule(s.rule()).turn(col(s.turn)).outcome(o);
                let p = Pos::new(h, w);
                for &(q, c) in &s.stones {
                    b.add(Stone { coord: p.ij(q), color: col(c) });
                }
                b.build().expect("building")
            });
            Track::from_game(h, w, il, g)
        }
    };
    let first = cx.setup.as_ref().unwrap().turn;
    let mut m = C10 { turn: first, passes: 0, result: recorded, resigned: None };
    if cx.rng.p(0.08) {
        // handicap stones hand the turn to White
        let e = t.pos.empties();
        let k = cx.rng.n(5.min(e.len() + 1));
        if k > 0 {
            // also between passes, which it does not undo
            for _ in 0..cx.rng.n(3) {
                cx.drv("pass", || t.g.play(Move::Pass));
                m.passes += 1;
                cx.note("pass".to_string());
            }
            let pts: Vec<(u8, u8)> = e.iter().take(k).map(|&p| t.pos.ij(p)).collect();
            cx.drv("put_handicap", || t.g.put_handicap(&pts));
            let il = t.illegal;
            t = Track::from_game(t.h, t.w, il, t.g);
            t.passes = m.passes;
            m.turn = W;
            cx.note(format!("put_handicap {pts:?}"));
        }
    }
    let r = run(cx, &mut t, &pol, &mut m);
    let n = cx.acts.len();
    cx.sample_game(&t, n);
    r
}

// ---------------------------------------------------------------- C17

pub struct C17 {
    stride: usize,
    k: usize,
}
impl C17 {
    fn judge(&self, cx: &mut Ctx, t: &Track) -> R {
        let (mut eyes, mut solid) = (0, 0);
        for p in 0..t.pos.n() {
            let ij = t.pos.ij(p);
            for c in [B, W] {
                let got = t.g.check_eye(Stone { coord: ij, color: col(c) });
                let cross = t.pos.c[p] == E && t.pos.nb(p).all(|q| t.pos.c[q] == c);
                let full = cross && t.pos.diag(p).iter().all(|&q| t.pos.c[q] == c);
                eyes += got as u64;
                solid += full as u64;
                ensure!(
                    !got || cross,
                    "{ij:?} is taken for an eye of {}, but it is not empty with only its stones around\n{}",
                    ['-', 'X', 'O'][c as usize],
                    t.pos.show()
                );
                if got && !full {
                    let owned = |p: usize| 4 - t.pos.diag(p).iter().filter(|&&q| t.pos.c[q] != c).count();
                    let own = owned(p);
                    let open = t.pos.diag(p).iter().any(|&q| t.pos.c[q] == E && owned(q) >= 2 && t.pos.nb(q).all(|r| t.pos.c[r] != opp(c)));
                    ensure!(
                        own >= 2 && open,
                        "{ij:?} is taken for an eye of {}, but {own} of its diagonals are its stones or off the board and open={open}\n{}",
                        ['-', 'X', 'O'][c as usize],
                        t.pos.show()
                    );
                    cx.hit("eyes_with_an_open_diagonal");
                }
                ensure!(got || !full, "{ij:?} is not taken for an eye of {}, but all its neighbours are its stones\n{}", ['-', 'X', 'O'][c as usize], t.pos.show());
            }
            let eye = t.pos.c[p] == E && t.g.check_eye(Stone { coord: ij, color: col(t.turn) });
            for b in 0..8u32 {
                if b & SUPERKO != 0 && (t.pos.n() > 60 || t.boards.len() > 40) && !cx.rng.p(0.05) {
                    continue;
                }
                let without = t.g.check_point_by(ij, flags(b));
                let with = t.g.check_point_by(ij, flags(b | FILLEYE));
                cx.hit("verdict_pairs");
                if eye {
                    ensure!(with.is_some(), "{ij:?} is an eye of the player but legal under {}\n{}", rule_name(b | FILLEYE), t.pos.show());
                    ensure!(
                        with == Some(PlayError::FillEye) || without.is_some(),
                        "{ij:?}: an eye refused as {with:?}, legal without the eye rule\n{}",
                        t.pos.show()
                    );
                } else {
                    ensure!(
                        with == without,
                        "{ij:?} is no eye of the player, but the verdict under {} is {without:?} and with the eye rule {with:?}\n{}",
                        rule_name(b),
                        t.pos.show()
                    );
                }
            }
        }
        cx.add("eyes_seen", eyes);
        cx.add("solid_eyes_seen", solid);
        cx.eval(t.pos.hash() ^ t.turn as u64, eyes > 0);
        Ok(())
    }
}
impl Mon for C17 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride == 0 || t.plays == 0 {
            self.judge(cx, t)?;
        }
        Ok(())
    }
}

pub fn c17(cx: &mut Ctx) -> R {
    if tour(cx, false, || C17 { stride: 1, k: 0 })? {
        return Ok(());
    }
    let c = any_class(cx);
    let mut s = setup(&mut cx.rng, c);
    let n = s.h * s.w;
    if cx.rng.p(0.6) {
        // walls full of eye-like holes
        let mut p = Pos::new(s.h, s.w);
        let base = 1 + cx.rng.n(2) as u8;
        let split = cx.rng.n(s.w + 1);
        let (eh, op) = (0.05 + 0.25 * cx.rng.f(), 0.12 * cx.rng.f());
        for q in 0..n {
            let c = if q % s.w < split { base } else { opp(base) };
            p.c[q] = if cx.rng.p(eh) {
                E
            } else if cx.rng.p(op) {
                opp(c)
            } else {
                c
            };
        }
        settle(&mut p, base);
        s.stones = (0..n).filter(|&q| p.c[q] != E).map(|q| (q, p.c[q])).collect();
        s.kind = "eyes";
        s.builder = true;
        s.turn = 1 + cx.rng.n(2) as u8;
    }
    let mut pol = policy(&mut cx.rng, 40 + n / 4);
    pol.modes.push((Mode::Tight, 0.3));
    std_run_with(cx, s, pol, &mut C17 { stride: 1 + n / 30, k: 0 })
}

// ---------------------------------------------------------------- C23

pub struct C23 {
    stride: usize,
    k: usize,
}
impl C23 {
    fn judge(&self, cx: &mut Ctx, t: &Track, share: f64) -> R {
        let n = t.pos.n();
        let mut rich = false;
        for p in 0..n {
            let ij = t.pos.ij(p);
            // neighbours and liberties of any point, as the board shows them
            if share > 0.99 || cx.rng.p(0.2) {
                let want: Vec<usize> = {
                    let mut v: Vec<usize> = t.pos.nb(p).collect();
                    v.sort_unstable();
                    v
                };
                let pts: Vec<_> = t.g.get_connected_points(ij).take(9).collect();
                ensure!(sorted(&t.pos, pts.iter().map(|x| x.coord)) == want, "neighbours of {ij:?}: {pts:?}");
                for x in &pts {
                    ensure!(uncol(x.color) == t.pos.c[t.pos.idx(x.coord)], "neighbour {x:?} of {ij:?} has another colour\n{}", t.pos.show());
                }
                let stones: Vec<usize> = want.iter().copied().filter(|&q| t.pos.c[q] != E).collect();
                let got: Vec<_> = t.g.get_connected_stones(ij).take(9).collect();
                ensure!(sorted(&t.pos, got.iter().map(|x| x.coord)) == stones, "stones next to {ij:?}: {got:?}\n{}", t.pos.show());
                let libs: Vec<usize> = want.iter().copied().filter(|&q| t.pos.c[q] == E).collect();
                ensure!(sorted(&t.pos, t.g.get_liberties(ij).take(9)) == libs, "empty points next to {ij:?}: {:?}\n{}", t.g.get_liberties(ij).collect::<Vec<_>>(), t.pos.show());
                ensure!(t.g.has_liberties(ij) == !libs.is_empty(), "has_liberties({ij:?}) is {}\n{}", t.g.has_liberties(ij), t.pos.show());
            }
            if t.pos.c[p] != E {
                continue;
            }
            let caps = t.ana.captures(&t.pos, p, t.turn);
            let sui = t.is_suicide(p);
            let ko = t.is_ko(p);
            let special = !caps.is_empty() || sui || ko;
            rich |= special;
            if !special && !cx.rng.p(share) {
                continue;
            }
            cx.hit("points_asked");
            ensure!(
                t.g.will_capture(ij) == !caps.is_empty(),
                "will_capture({ij:?}) for {} is {}, but it captures {} chains\n{}",
                t.turn,
                t.g.will_capture(ij),
                caps.len(),
                t.pos.show()
            );
            for c in [B, W] {
                let s = Stone { coord: ij, color: col(c) };
                let want = t.ana.self_capture(&t.pos, p, c);
                ensure!(t.g.check_suicide(s) == want, "check_suicide({s:?}) is {}\n{}", t.g.check_suicide(s), t.pos.show());
            }
            let s = Stone { coord: ij, color: col(t.turn) };
            ensure!(t.g.check_ko(s) == ko, "check_ko({s:?}) is {}, board\n{}before the last play\n{}", t.g.check_ko(s), t.pos.show(), t.before_last.as_ref().map_or("none\n".into(), |b| b.show()));
            if t.illegal & SUICIDE != 0 && sui {
                continue;
            }
            // simulate and play: any point that is empty and not a forbidden suicide
            let sim = t.g.play_for_verification(ij);
            let mut g = t.g.clone();
            if !t.paused() || cx.rng.p(0.5) {
                if t.paused() {
                    g.resume();
                }
                g.play(t.mv(p));
            } else {
                g.play(t.mv(p));
            }
            let a = observe(&sim, t.h, t.w);
            let b = observe(g.goban(), t.h, t.w);
            cx.hit("simulations_compared");
            ensure!(
                a == b,
                "play_for_verification({ij:?}) for {} under {}:\nboard\n{}simulated\n{}played\n{}",
                t.turn,
                rule_name(t.illegal),
                t.pos.show(),
                a.show(),
                b.show()
            );
            ensure!(sim == *g.goban(), "the simulated board shows the same stones but is not equal to the played one");
            ensure!(sim.zobrist_hash() == g.zobrist_hash() && chain_digest(&sim) == chain_digest(g.goban()), "the simulated board has other chains or another hash than the played one");
            // did the play capture, as predicted?
            let pr = (g.prisoners().0 - t.g.prisoners().0, g.prisoners().1 - t.g.prisoners().1);
            let (taken, lost) = if t.turn == B { (pr.0, pr.1) } else { (pr.1, pr.0) };
            ensure!(t.g.will_capture(ij) == (taken > 0), "will_capture({ij:?}) is {}, playing captured {taken}", t.g.will_capture(ij));
            ensure!(t.g.check_suicide(s) == (lost > 0), "check_suicide({ij:?}) is {}, playing lost {lost} own stones", t.g.check_suicide(s));
            let rep = t.stood(&b);
            ensure!(t.g.check_super_ko(s) == rep, "check_super_ko({ij:?}) is {}, the resulting board {} before\nboard\n{}result\n{}", t.g.check_super_ko(s), if rep { "stood" } else { "never stood" }, t.pos.show(), b.show());
        }
        cx.eval(t.pos.hash() ^ t.turn as u64 ^ (t.boards.len() as u64) << 30, rich);
        Ok(())
    }
}
impl Mon for C23 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        let share = if self.k % self.stride == 0 { 1.0 } else { 1.5 / t.pos.n() as f64 };
        self.judge(cx, t, share)
    }
}

pub fn c23(cx: &mut Ctx) -> R {
    if tour(cx, false, || C23 { stride: 1, k: 0 })? {
        return Ok(());
    }
    match cx.rng.n(10) {
        0 | 1 => {
            let (h, w) = (cx.rng.r(2, 10), cx.rng.r(2, 10));
            ko_run(cx, h, w, &mut C23 { stride: 6, k: 0 })
        }
        2 => multi_capture(cx, &mut C23 { stride: 5, k: 0 }),
        3 => giant_capture(cx, &mut C23 { stride: 9, k: 0 }),
        4..=5 => {
            let c = *cx.rng.pick(&[SizeClass::Tiny, SizeClass::Small]);
            let mut s = setup(&mut cx.rng, c);
            s.illegal &= !SUICIDE;
            let mut pol = policy(&mut cx.rng, 120);
            pol.modes.push((Mode::SelfCapture, 1.0));
            std_run_with(cx, s, pol, &mut C23 { stride: 2, k: 0 })
        }
        _ => {
            let c = any_class(cx);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, 200);
            let pol = policy(&mut cx.rng, len);
            std_run_with(cx, s, pol, &mut C23 { stride: 1 + n / 8, k: 0 })
        }
    }
}
