//! Monitors of the small public types and of the search interface: C26 C27 C28.
use crate::ctx::*;
use crate::drive::*;
use crate::gen::*;
use crate::obs::*;
use crate::rng::{mix, Rng};
use crate::{ensure, violated};
use goban::pieces::goban::Goban;
use goban::pieces::group::{Group, Groups, Liberties, EMPTY_LIBERTIES};
use goban::pieces::stones::{Color, Point, Stone};
use goban::pieces::util::coord::{corner_points, is_coord_valid, neighbor_coords, one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size};
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, IllegalRules, Move, Rule, ScoreRules, CHINESE, JAPANESE};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- C26

/// Every point of one board size, and a sample of values of the other types.
pub fn c26(cx: &mut Ctx) -> R {
    let k = (cx.case % 361) as usize;
    let (h, w) = (1 + k / 19, 1 + k % 19);
    let size: Size = (h as u8, w as u8);
    cx.note(format!("size {h}x{w}"));
    coordinates(cx, h, w, size)?;
    conversions(cx, h, w, size)?;
    colours(cx)?;
    rules(cx)?;
    cx.sample(|| format!("size {h}x{w}: every point, neighbour and conversion"));
    Ok(())
}

fn coordinates(cx: &mut Ctx, h: usize, w: usize, size: Size) -> R {
    let mut used = vec![false; h * w];
    for i in 0..h {
        for j in 0..w {
            let p: Coord = (i as u8, j as u8);
            let k = oracle("two_to_1dim", || two_to_1dim(size, p));
            ensure!(k < h * w && !used[k], "point {p:?} of a {h}x{w} board has index {k}, which is off the board or taken");
            used[k] = true;
            ensure!(k == i * w + j, "point {p:?} of a {h}x{w} board has index {k}, boards are stored row by row");
            let q = oracle("one_to_2dim", || one_to_2dim(size, k));
            ensure!(q == p, "index {k} of a {h}x{w} board is the point {q:?}, which came from {p:?}");
            let m: Coord = goban::one2dim!(size, k);
            ensure!(m == p, "one2dim!: index {k} of a {h}x{w} board is the point {m:?}, which came from {p:?}");
            ensure!(k.into_coord(size) == p && p.into_coord(size) == p && p.into_idx(size) == k && k.into_idx(size) == k, "point {p:?} and index {k} do not convert into each other");
            // orthogonal and diagonal neighbours, computed here without wrapping
            let near = |d: &[(i32, i32)]| -> BTreeSet<Coord> {
                d.iter()
                    .map(|&(a, b)| (i as i32 + a, j as i32 + b))
                    .filter(|&(a, b)| a >= 0 && b >= 0 && a < h as i32 && b < w as i32)
                    .map(|(a, b)| (a as u8, b as u8))
                    .collect()
            };
            let cross = near(&[(1, 0), (-1, 0), (0, 1), (0, -1)]);
            let got = oracle("valid_coords", || valid_coords(p, size));
            ensure!(got.len() == cross.len() && got.iter().copied().collect::<BTreeSet<_>>() == cross, "valid_coords({p:?}) on {h}x{w}: {got:?}");
            let got: Vec<Coord> = oracle("neighbor_coords", || neighbor_coords(p)).into_iter().filter(|&q| is_coord_valid(size, q)).collect();
            ensure!(got.len() == cross.len() && got.iter().copied().collect::<BTreeSet<_>>() == cross, "neighbor_coords({p:?}) on {h}x{w}: {got:?} are on the board");
            let diag = near(&[(1, 1), (-1, 1), (1, -1), (-1, -1)]);
            let got: Vec<Coord> = oracle("corner_points", || corner_points(p)).into_iter().filter(|&q| is_coord_valid(size, q)).collect();
            ensure!(got.len() == diag.len() && got.iter().copied().collect::<BTreeSet<_>>() == diag, "corner_points({p:?}) on {h}x{w}: {got:?} are on the board");
            cx.hit("points_converted");
        }
    }
    // all of 0..=255 x 0..=255 at the edges, a sample inside
    let mut xs: Vec<usize> = (0..=255).collect();
    cx.rng.shuffle(&mut xs);
    for &i in [0, h - 1, h, h + 1, 18, 19, 20, 255].iter().chain(&xs[..24]) {
        for j in 0..=255usize {
            let want = i < h && j < w;
            ensure!(is_coord_valid(size, (i as u8, j as u8)) == want, "is_coord_valid: ({i}, {j}) on {h}x{w} is not {want}");
        }
    }
    cx.eval(mix((h * 100 + w) as u64), true);
    Ok(())
}

fn conversions(cx: &mut Ctx, h: usize, w: usize, size: Size) -> R {
    let s: Size = oracle("GobanSizes into Size", || GobanSizes::Custom(h, w).into());
    ensure!(s == size, "GobanSizes::Custom({h}, {w}) is {s:?}");
    for (gs, k) in [(GobanSizes::Nine, 9), (GobanSizes::Thirteen, 13), (GobanSizes::Nineteen, 19)] {
        let s: Size = gs.into();
        ensure!(s == (k as u8, k as u8), "{gs:?} is {s:?}");
        let from: Size = GobanSizes::from(k).into();
        ensure!(from == (k as u8, k as u8), "GobanSizes::from({k}) is {from:?}");
        let g = Game::new(GobanSizes::from(k), CHINESE);
        ensure!(g.size() == (k as u8, k as u8), "a game of size {k} is {:?}", g.size());
    }
    // any other number is refused or means a square board of that side
    let k = cx.rng.n(40);
    if let Ok(s) = catch_unwind(AssertUnwindSafe(|| -> Size { GobanSizes::from(k).into() })) {
        ensure!(s == (k as u8, k as u8), "GobanSizes::from({k}) is {s:?}");
    }
    PANIC.with(|x| x.borrow_mut().take());
    for _ in 0..20 {
        let p: Coord = (cx.rng.n(256) as u8, cx.rng.n(256) as u8);
        ensure!(Move::from(p) == Move::Play(p.0, p.1), "the move made from {p:?} is {:?}", Move::from(p));
        for c in [Color::Black, Color::White] {
            let s = Stone::from((p, c));
            ensure!(s.coord == p && s.color == c, "the stone made from {p:?} and {c:?} is {s:?}");
            let q = Point::from((p, Some(c)));
            ensure!(q.coord == p && q.color == Some(c), "the point made from {p:?} and {c:?} is {q:?}");
            let back = Stone::try_from(q);
            ensure!(back == Ok(s), "the stone made from {q:?} is {back:?}");
            ensure!(Coord::from(s) == p && Coord::from(q) == p, "the coordinates of {s:?} are {:?} and {:?}", Coord::from(s), Coord::from(q));
        }
        let q = Point::from((p, None));
        ensure!(q.coord == p && q.color.is_none() && Coord::from(q) == p, "the empty point made from {p:?} is {q:?}");
        ensure!(Stone::try_from(q).is_err(), "an empty point became a stone");
        cx.hit("values_converted");
    }
    Ok(())
}

fn colours(cx: &mut Ctx) -> R {
    use Color::*;
    ensure!(!Black == White && !White == Black && Black != White, "the opposite of Black is {:?}, of White {:?}", !Black, !White);
    ensure!(format!("{Black}") == "Black" && format!("{White}") == "White", "Black prints as {Black}, White as {White}");
    for c in [Black, White] {
        ensure!(Color::from(Some(c)) == c, "the colour of an occupied point is {:?}, not {c:?}", Color::from(Some(c)));
        ensure!(!!c == c, "the opposite of the opposite of {c:?} is {:?}", !!c);
        for m in [0.25f32, 0.5, 1.0, 361.0, cx.rng.f() as f32 * 100.0] {
            ensure!(EndGame::WinnerByScore(c, m).get_winner() == Some(c), "the winner of {:?} is {:?}", EndGame::WinnerByScore(c, m), EndGame::WinnerByScore(c, m).get_winner());
        }
        for e in [EndGame::WinnerByResign(c), EndGame::WinnerByTime(c), EndGame::WinnerByForfeit(c)] {
            ensure!(e.get_winner() == Some(c), "the winner of {e:?} is {:?}", e.get_winner());
        }
    }
    ensure!(EndGame::Draw.get_winner().is_none(), "the winner of a draw is {:?}", EndGame::Draw.get_winner());
    ensure!(catch_unwind(|| Color::from(None)).is_err(), "an empty point has a colour");
    PANIC.with(|x| x.borrow_mut().take());
    Ok(())
}

fn rules(cx: &mut Ctx) -> R {
    let same = |r: &Rule, komi: f32, i: u32, s: u32| r.komi == komi && bits(r.flag_illegal) == i && sbits(r.flag_score) == s;
    ensure!(same(&JAPANESE, 6.5, KO | SUICIDE, KOMI | PRISONERS), "the Japanese rules are {JAPANESE:?}");
    ensure!(same(&CHINESE, 7.5, KO | SUPERKO | SUICIDE, KOMI | STONES), "the Chinese rules are {CHINESE:?}");
    ensure!("JAP".parse::<Rule>() == Ok(JAPANESE), "JAP is {:?}", "JAP".parse::<Rule>());
    ensure!("CHI".parse::<Rule>() == Ok(CHINESE), "CHI is {:?}", "CHI".parse::<Rule>());
    let other: String = (0..cx.rng.n(8)).map(|_| *cx.rng.pick(&['J', 'A', 'P', 'C', 'H', 'I', 'é', ' ', '0'])).collect();
    if let Ok(r) = other.parse::<Rule>() {
        // other spellings may name one of the two, nothing else
        ensure!(r == JAPANESE || r == CHINESE, "{other:?} is the rule {r:?}");
    }
    ensure!("".parse::<Rule>().is_err(), "the empty text names a rule");
    // every set of flags is told apart
    for a in 0..16u32 {
        ensure!(bits(flags(a)) == a, "the rule flags {a:04b} read back as {:04b}", bits(flags(a)));
        for x in [IllegalRules::KO, IllegalRules::SUPERKO, IllegalRules::SUICIDE, IllegalRules::FILLEYE] {
            ensure!((flags(a) | x).contains(x) && !(flags(a) - x).contains(x), "flag {x:?} cannot be set or cleared in {:?}", flags(a));
        }
    }
    for a in 0..8u32 {
        ensure!(sbits(sflags(a)) == a, "the score flags {a:03b} read back as {:03b}", sbits(sflags(a)));
        for x in [ScoreRules::STONES, ScoreRules::KOMI, ScoreRules::PRISONNERS] {
            ensure!((sflags(a) | x).contains(x) && !(sflags(a) - x).contains(x), "flag {x:?} cannot be set or cleared in {:?}", sflags(a));
        }
    }
    cx.hit("rule_sets_read");
    // the defaults are an empty 19x19 board, Black to play, by the Chinese rules
    let b = oracle("default board", Goban::default);
    ensure!(b.size() == (19, 19) && b == Goban::new((19, 19)) && b.to_vec() == vec![None; 361], "the default board is {}x{}:\n{b}", b.size().0, b.size().1);
    for (what, g) in [("default", oracle("default game", Game::default)), ("default builder's", oracle("default build", || Game::builder().build().unwrap()))] {
        ensure!(*g.goban() == b && g.size() == (19, 19), "the {what} game has a {}x{} board", g.size().0, g.size().1);
        ensure!(g.turn() == Color::Black && g.prisoners() == (0, 0) && !g.is_over() && g.outcome().is_none(), "the {what} game is {g:?}");
        ensure!(g.komi() == CHINESE.komi && g.calculate_score() == (0.0, 7.5), "the {what} game has komi {} and score {:?}", g.komi(), g.calculate_score());
    }
    // a game of the rule behaves by it
    let k = komi(&mut cx.rng);
    let mut g = Game::new(GobanSizes::Nine, if cx.rng.p(0.5) { JAPANESE } else { CHINESE });
    g.set_komi(k);
    ensure!(g.komi().to_bits() == k.to_bits(), "komi {k} reads back as {}", g.komi());
    Ok(())
}

// ---------------------------------------------------------------- C27

struct Model {
    g: Group,
    set: BTreeSet<usize>,
    color: Color,
    stone: usize,
}

fn check_group(m: &Model, what: &str) -> R {
    let g = &m.g;
    let l = oracle("liberties", || g.liberties());
    let got: BTreeSet<usize> = l.iter().copied().collect();
    ensure!(got.len() == l.len() && got == m.set, "{what}: liberties() is {l:?}, expected {:?}", m.set);
    ensure!(g.number_of_liberties() == m.set.len(), "{what}: number_of_liberties() is {}, expected {:?}", g.number_of_liberties(), m.set);
    ensure!(g.is_dead() == m.set.is_empty(), "{what}: is_dead() is {}, liberties {:?}", g.is_dead(), m.set);
    ensure!(g.is_atari() == (m.set.len() == 1), "{what}: is_atari() is {}, liberties {:?}", g.is_atari(), m.set);
    for p in 0..361 {
        ensure!(g.contains_liberty(p) == m.set.contains(&p), "{what}: contains_liberty({p}) is {}, liberties {:?}", g.contains_liberty(p), m.set);
    }
    ensure!(g.color == m.color && g.num_stones == 1 && g.origin as usize == m.stone && g.last as usize == m.stone, "{what}: a chain of one {:?} stone at {} became {g:?}", m.color, m.stone);
    Ok(())
}

fn point(r: &mut Rng, span: (usize, usize)) -> usize {
    match r.n(8) {
        // ends of buckets and of the board
        0 => *r.pick(&[0, 1, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 351, 352, 359, 360]),
        _ => r.r(span.0, span.1),
    }
}

fn fresh(r: &mut Rng) -> Model {
    let color = if r.p(0.5) { Color::Black } else { Color::White };
    let stone = r.n(361);
    Model { g: Group::new(color, stone), set: BTreeSet::new(), color, stone }
}

fn liberty_sets(cx: &mut Ctx) -> R {
    let a = cx.rng.n(361);
    let span = (a, (a + 1 + cx.rng.n(360)).min(360));
    let mut ms: Vec<Model> = (0..cx.rng.r(1, 4)).map(|_| fresh(&mut cx.rng)).collect();
    for m in &ms {
        check_group(m, "a new chain")?;
    }
    let ops = cx.rng.r(1, 60);
    for _ in 0..ops {
        let k = cx.rng.n(ms.len());
        let o = cx.rng.n(ms.len());
        let what = match cx.rng.n(8) {
            0 | 1 => {
                let p = point(&mut cx.rng, span);
                if ms[k].set.insert(p) {
                    cx.drv("add_liberty", || ms[k].g.add_liberty(p).color);
                }
                format!("add_liberty({p})")
            }
            2 | 3 => {
                let v: Vec<usize> = ms[k].set.iter().copied().collect();
                if v.is_empty() {
                    continue;
                }
                let p = *cx.rng.pick(&v);
                ms[k].set.remove(&p);
                cx.drv("remove_liberty", || ms[k].g.remove_liberty(p).color);
                format!("remove_liberty({p})")
            }
            4 => {
                let mut v: Vec<usize> = (0..cx.rng.n(6)).map(|_| point(&mut cx.rng, span)).filter(|p| !ms[k].set.contains(p)).collect();
                v.sort_unstable();
                v.dedup();
                ms[k].set.extend(&v);
                cx.drv("add_liberties", || ms[k].g.add_liberties(v.iter().copied()).color);
                format!("add_liberties({v:?})")
            }
            5 => {
                let v: Vec<usize> = if cx.rng.p(0.1) { (span.0..=span.1).collect() } else { (0..cx.rng.n(8)).map(|_| point(&mut cx.rng, span)).collect() };
                ms[k].set.extend(&v);
                cx.drv("union_liberties_slice", || ms[k].g.union_liberties_slice(&v).color);
                format!("union_liberties_slice({v:?})")
            }
            6 => {
                let l: Liberties = ms[o].g.liberties;
                let s = ms[o].set.clone();
                ms[k].set.extend(&s);
                cx.drv("union_liberties", || ms[k].g.union_liberties(l).color);
                format!("union_liberties({s:?})")
            }
            _ => {
                // the same set by another way
                let m = &ms[k];
                let mut v: Vec<usize> = m.set.iter().copied().collect();
                cx.rng.shuffle(&mut v);
                let mut g = Group::new_with_liberties(m.color, m.stone, EMPTY_LIBERTIES);
                g.add_liberties(v.iter().copied());
                ensure!(g == m.g, "two chains with liberties {:?} are not equal", m.set);
                let extra = point(&mut cx.rng, span);
                if !m.set.contains(&extra) {
                    g.add_liberty(extra);
                    ensure!(g != m.g, "chains with and without the liberty {extra} are equal");
                }
                let g = Group::new_with_liberties(m.color, m.stone, m.g.liberties);
                ensure!(g == m.g, "new_with_liberties loses liberties of {:?}", m.set);
                "new_with_liberties".into()
            }
        };
        cx.note(format!("chain {k}: {what}"));
        for m in &ms {
            check_group(m, &what)?;
        }
        cx.hit("liberty_operations");
        cx.max("liberties_of_a_chain", ms[k].set.len() as u64);
        let key = ms[k].set.iter().fold(7u64, |a, &p| mix(a ^ p as u64));
        cx.eval(key, !ms[k].set.is_empty());
    }
    Ok(())
}

fn slots(cx: &mut Ctx) -> R {
    let mut gs = Groups::with_capacity(cx.rng.n(20));
    let mut live: BTreeMap<usize, Group> = BTreeMap::new();
    let mut peak = 0;
    let crowded = cx.rng.p(0.03);
    let grow = if crowded { 0.8 } else { 0.2 + 0.7 * cx.rng.f() };
    let ops = if crowded { cx.rng.r(300, 900) } else { cx.rng.r(1, 120) };
    for k in 0..ops {
        if live.is_empty() || cx.rng.p(grow) && live.len() < 700 {
            let mut m = fresh(&mut cx.rng);
            for _ in 0..cx.rng.n(4) {
                let p = cx.rng.n(361);
                m.g.union_liberties_slice(&[p]);
            }
            let id = cx.drv("put_free_spot", || gs.put_free_spot(m.g));
            ensure!(!live.contains_key(&id), "a new chain got the identifier {id} of a living one");
            live.insert(id, m.g);
            peak = peak.max(live.len());
            ensure!(id < peak, "a new chain got the identifier {id}, at most {peak} chains lived at once");
            cx.note(format!("put: {id}"));
        } else {
            let ids: Vec<usize> = live.keys().copied().collect();
            let id = *cx.rng.pick(&ids);
            if cx.rng.p(0.3) {
                let p = cx.rng.n(361);
                gs[id].union_liberties_slice(&[p]);
                live.get_mut(&id).unwrap().union_liberties_slice(&[p]);
            } else {
                cx.drv("remove", || gs.remove(id));
                live.remove(&id);
                cx.note(format!("remove: {id}"));
            }
        }
        if crowded && k % 16 != 0 && k + 1 != ops {
            continue;
        }
        for (&id, g) in &live {
            ensure!(gs[id] == *g, "chain {id} became {:?}, was {g:?}", gs[id]);
        }
        let mut a: Vec<(usize, Group)> = gs.iter_with_index().take(1000).collect();
        a.sort_by_key(|x| x.0);
        ensure!(a.len() == live.len() && a.iter().zip(&live).all(|(x, y)| x.0 == *y.0 && x.1 == *y.1), "iter_with_index() lists {:?}, living are {:?}", a.iter().map(|x| x.0).collect::<Vec<_>>(), live.keys());
        let n = gs.iter().take(1000).count();
        ensure!(n == live.len() && gs.iter().all(|g| live.values().any(|x| x == g)), "iter() lists {n} chains, {} live", live.len());
        cx.hit("slot_operations");
        let key = live.iter().fold(11u64, |a, x| mix(a ^ *x.0 as u64 ^ (x.1.origin as u64) << 20));
        cx.eval(key, live.len() > 1);
    }
    cx.max("chains_alive_at_once", peak as u64);
    Ok(())
}

fn rings(cx: &mut Ctx) -> R {
    let n = cx.rng.r(1, 361);
    let k = if cx.rng.p(0.2) { n } else { cx.rng.r(1, n) };
    let mut v: Vec<usize> = (0..n).collect();
    cx.rng.shuffle(&mut v);
    let ring = &v[..k];
    let mut next: Vec<u16> = (0..n).map(|_| cx.rng.n(n) as u16).collect();
    for i in 0..k {
        next[ring[i]] = ring[(i + 1) % k] as u16;
    }
    let mut g = Group::new(Color::Black, ring[0]);
    g.last = ring[k - 1] as u16;
    g.num_stones = k as u16;
    cx.note(format!("ring {ring:?}"));
    let mut it = g.iter(&next);
    let mut seen = BTreeSet::new();
    for i in 0..k {
        ensure!(it.len() == k - i && it.size_hint() == (k - i, Some(k - i)), "after {i} of {k} stones the iterator reports {:?} more", it.size_hint());
        let copy = it;
        ensure!(copy.count() == k - i, "after {i} of {k} stones a copy of the iterator has {} more", copy.count());
        let Some(s) = it.next() else { violated!("the iterator ends after {i} of {k} stones") };
        ensure!(ring.contains(&s) && seen.insert(s), "the iterator yields {s} of the ring {ring:?}, seen {seen:?}");
        if k > 40 && !cx.rng.p(40.0 / k as f64) {
            continue;
        }
        cx.hit("ring_positions");
    }
    for _ in 0..3 {
        ensure!(it.next().is_none() && it.len() == 0, "the iterator goes on after its end");
    }
    cx.max("stones_in_a_ring", k as u64);
    cx.eval(ring.iter().fold(13u64, |a, &p| mix(a ^ p as u64)), k > 1);
    Ok(())
}

pub fn c27(cx: &mut Ctx) -> R {
    match cx.rng.n(7) {
        0..=3 => liberty_sets(cx)?,
        4 | 5 => slots(cx)?,
        _ => rings(cx)?,
    }
    let notes = cx.notes.iter().take(8).cloned().collect::<Vec<_>>().join("; ");
    cx.sample(|| notes);
    Ok(())
}

// ---------------------------------------------------------------- C28

use oxymcts::GameTrait;

struct C28 {
    stride: usize,
    k: usize,
}
impl C28 {
    fn judge(&self, cx: &mut Ctx, t: &Track) -> R {
        let g = &t.g;
        let before = game_obs(g, t.h, t.w, false);
        let moves: Vec<Move> = cx.drv("legals_moves", || g.legals_moves());
        let over = g.is_over();
        ensure!(g.is_final() == over && over == (t.paused() || t.resigned.is_some() || cx.setup.as_ref().is_some_and(|s| s.recorded.is_some())), "is_final() is {}, is_over() {over}", g.is_final());
        ensure!(GameTrait::player_turn(g) == col(t.turn), "player_turn() is {:?}", GameTrait::player_turn(g));
        let want: Vec<usize> = (0..t.pos.n()).filter(|&p| g.check_point_by(t.pos.ij(p), flags(t.illegal | FILLEYE)).is_none()).collect();
        let mut pts = vec![];
        let mut passes = 0;
        for m in &moves {
            match *m {
                Move::Play(i, j) => pts.push(coord_idx(&t.pos, (i, j))),
                Move::Pass => passes += 1,
                Move::Resign(_) => violated!("the search is offered to resign"),
            }
        }
        pts.sort_unstable();
        if over {
            // what a finished game offers is never played
            cx.hit("finished_games_seen");
            ensure!(passes == 0, "a finished game offers a pass");
            if let Some(e) = g.outcome() {
                if let Some(c) = e.get_winner() {
                    ensure!(g.get_winner() == c, "the winner is {:?}, the outcome {e:?}", g.get_winner());
                    cx.hit("winners_compared");
                }
            }
        } else {
            ensure!(pts == want, "the search is offered {pts:?}, legal without filling eyes are {want:?}\n{}", t.pos.show());
            ensure!(passes == usize::from(want.is_empty()), "the search is offered {passes} passes besides {} plays", pts.len());
            for _ in 0..2 {
                let m = *cx.rng.pick(&moves);
                let (mut a, mut b) = (g.clone(), g.clone());
                cx.drv("do_move", || a.do_move(&m));
                cx.drv("play", || {
                    b.play(m);
                });
                let (x, y) = (game_obs(&a, t.h, t.w, false), game_obs(&b, t.h, t.w, false));
                ensure!(x == y, "do_move({m:?}) and play differ in {}\n{}", x.diff(&y), t.pos.show());
                cx.hit("moves_compared");
            }
            if passes > 0 {
                cx.hit("states_with_only_a_pass");
            }
        }
        let after = game_obs(g, t.h, t.w, false);
        ensure!(before == after, "the search interface changed {}", before.diff(&after));
        cx.eval(t.pos.hash() ^ t.turn as u64 ^ (over as u64) << 9, !pts.is_empty());
        Ok(())
    }
}
impl Mon for C28 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride == 0 || t.paused() || t.resigned.is_some() {
            self.judge(cx, t)?;
        }
        Ok(())
    }
}

/// A game played through the search interface only, in step with one played by hand.
fn searched(cx: &mut Ctx) -> R {
    let c = if cx.rng.p(0.7) { SizeClass::Tiny } else { SizeClass::Any };
    let s = setup(&mut cx.rng, c);
    let n = s.h * s.w;
    let mut t = start(cx, s);
    let mut g = t.g.clone();
    for _ in 0..2 * n + 20 {
        if g.is_final() {
            ensure!(t.paused(), "the game played by search is over after {} plays, by hand {} passes", t.plays, t.passes);
            cx.hit("searched_games_finished");
            break;
        }
        let moves = cx.drv("legals_moves", || g.legals_moves());
        ensure!(!moves.is_empty(), "an unfinished game offers no move");
        let m = *cx.rng.pick(&moves);
        cx.drv("do_move", || g.do_move(&m));
        let r = t.apply(cx, Act::Try(m));
        ensure!(r.is_ok(), "{m:?} is offered to the search and refused by try_play: {r:?}");
        let (x, y) = (game_obs(&g, t.h, t.w, false), game_obs(&t.g, t.h, t.w, false));
        ensure!(x == y, "after {m:?} the game played by search differs in {}", x.diff(&y));
        cx.eval(t.pos.hash() ^ 77, true);
    }
    let k = cx.acts.len();
    cx.sample_game(&t, k);
    Ok(())
}

pub fn c28(cx: &mut Ctx) -> R {
    if tour(cx, false, || C28 { stride: 1, k: 0 })? {
        return Ok(());
    }
    if cx.rng.p(0.3) {
        return searched(cx);
    }
    let s = setup(&mut cx.rng, SizeClass::Any);
    let n = s.h * s.w;
    let len = capped_len(cx, n, 150);
    let mut pol = policy(&mut cx.rng, len);
    pol.resign = if cx.rng.p(0.2) { 0.02 } else { 0.0 };
    super::rules::std_run_with(cx, s, pol, &mut C28 { stride: 1 + n / 25, k: 0 })
}
