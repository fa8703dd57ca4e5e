//! Monitors of boards: C07 C08 C09 C11 C19 C20 C24.
use super::rules::*;
use crate::alloc;
use crate::ctx::*;
use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::{ensure, violated};
use goban::pieces::goban::Goban;
use goban::pieces::stones::{MaybeColor, Point, Stone};
use goban::rules::game::Game;
use goban::rules::{GobanSizes, Move, CHINESE};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mcol(c: u8) -> MaybeColor {
    match c {
        E => None,
        c => Some(col(c)),
    }
}

pub fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A board with exactly these stones, pushed in the given order.
pub fn rebuild(pos: &Pos, order: &[usize]) -> Goban {
    let mut g = Goban::new((pos.h as u8, pos.w as u8));
    for &q in order {
        g.push(pos.ij(q), col(pos.c[q]));
    }
    g
}
pub fn stones_of(pos: &Pos) -> Vec<usize> {
    (0..pos.n()).filter(|&q| pos.c[q] != E).collect()
}

// ---------------------------------------------------------------- C07

/// Chains, liberties and adjacencies as reported against those of the observed board.
pub fn check_chains(g: &Goban, pos: &Pos, ana: &Ana) -> R {
    let n = pos.n();
    let listed: Vec<_> = g.chains().take(n + 2).collect();
    ensure!(listed.len() == ana.groups.len(), "{} chains reported, {} on the board\n{}", listed.len(), ana.groups.len(), pos.show());
    let mut got: Vec<(u8, Vec<usize>, usize)> = vec![];
    for c in &listed {
        let mut l = c.liberties();
        let k = l.len();
        l.sort_unstable();
        l.dedup();
        ensure!(l.len() == k, "a liberty is listed twice: {:?}", c.liberties());
        ensure!(c.number_of_liberties() == k, "number_of_liberties() is {}, {} are listed", c.number_of_liberties(), k);
        ensure!(c.is_atari() == (k == 1), "is_atari() is {} with {k} liberties", c.is_atari());
        ensure!(c.is_dead() == (k == 0), "is_dead() is {} with {k} liberties", c.is_dead());
        for p in 0..n {
            ensure!(c.contains_liberty(p) == l.binary_search(&p).is_ok(), "contains_liberty({p}) is {}, liberties {l:?}", c.contains_liberty(p));
        }
        got.push((uncol(Some(c.color)), l, c.num_stones as usize));
    }
    got.sort();
    let mut want: Vec<(u8, Vec<usize>, usize)> = ana.groups.iter().map(|g| (g.color, g.libs.clone(), g.stones.len())).collect();
    want.sort();
    if got != want {
        let a: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
        let b: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
        violated!("chains (colour, liberties, stones) reported {a:?}, on the board {b:?}\n{}", pos.show());
    }
    // identifiers: every one names exactly one chain, and its stones are that chain's
    let mut label: HashMap<usize, u16> = HashMap::new();
    for p in 0..n {
        let ids = g.get_connected_groups_idx(p);
        let by_coord = g.get_connected_groups_idx(pos.ij(p));
        let set: HashSet<usize> = ids.iter().copied().collect();
        ensure!(set.len() == ids.len(), "chains next to {:?} listed twice: {ids:?}", pos.ij(p));
        ensure!(set == by_coord.iter().copied().collect::<HashSet<_>>(), "chains next to {:?}: {ids:?} by index, {by_coord:?} by coordinate", pos.ij(p));
        let mut got: Vec<u16> = vec![];
        for &id in &ids {
            let l = match label.get(&id) {
                Some(&l) => l,
                None => {
                    let stones: Vec<Stone> = g.chain_stones(id).take(n + 2).collect();
                    let pts = sorted(pos, stones.iter().map(|s| s.coord));
                    ensure!(!pts.is_empty() && pts[0] < n, "chain {id} has stones {pts:?}");
                    let l = ana.label[pts[0]];
                    ensure!(l != NONE && ana.groups[l as usize].stones == pts, "chain {id} has stones {pts:?}, the board shows {:?}\n{}", if l == NONE { vec![] } else { ana.groups[l as usize].stones.clone() }, pos.show());
                    for s in &stones {
                        ensure!(uncol(Some(s.color)) == pos.c[pos.idx(s.coord)], "chain {id} shows {s:?} in another colour than the board");
                    }
                    ensure!(!label.values().any(|&x| x == l), "two identifiers for the chain of {:?}", pos.ij(pts[0]));
                    label.insert(id, l);
                    l
                }
            };
            got.push(l);
        }
        got.sort_unstable();
        let mut want: Vec<u16> = pos.nb(p).map(|q| ana.label[q]).filter(|&l| l != NONE).collect();
        want.sort_unstable();
        want.dedup();
        ensure!(got == want, "chains next to {:?}: {} reported, {} on the board\n{}", pos.ij(p), got.len(), want.len(), pos.show());
    }
    Ok(())
}

/// Groups and regions computed by search.
pub fn check_search(g: &Goban, pos: &Pos, pts: &[usize], partition: bool) -> R {
    for &p in pts {
        let got = g.get_group_from_point(Point { coord: pos.ij(p), color: mcol(pos.c[p]) });
        let mut want = pos.region(p);
        want.sort_unstable();
        for x in &got {
            ensure!(uncol(x.color) == pos.c[p], "group of {:?} contains {x:?}", pos.ij(p));
        }
        ensure!(sorted(pos, got.iter().map(|x| x.coord)) == want, "group of {:?}: {:?}\n{}", pos.ij(p), sorted(pos, got.iter().map(|x| x.coord)), pos.show());
        let nbs = sorted(pos, g.get_connected_points(pos.ij(p)).take(9).map(|x| x.coord));
        let mut w: Vec<usize> = pos.nb(p).collect();
        w.sort_unstable();
        ensure!(nbs == w, "neighbours of {:?}: {nbs:?}", pos.ij(p));
        let st = sorted(pos, g.get_connected_stones(pos.ij(p)).take(9).map(|x| x.coord));
        let w2: Vec<usize> = w.iter().copied().filter(|&q| pos.c[q] != E).collect();
        ensure!(st == w2, "stones next to {:?}: {st:?}\n{}", pos.ij(p), pos.show());
        ensure!(sorted(pos, g.get_connected_stones(p).take(9).map(|x| x.coord)) == w2, "stones next to index {p}");
        let li = sorted(pos, g.get_liberties(pos.ij(p)).take(9));
        let w3: Vec<usize> = w.iter().copied().filter(|&q| pos.c[q] == E).collect();
        ensure!(li == w3 && g.has_liberties(pos.ij(p)) != w3.is_empty(), "liberties of {:?}: {li:?}\n{}", pos.ij(p), pos.show());
    }
    if partition {
        let all = (0..pos.n()).map(|p| Point { coord: pos.ij(p), color: mcol(pos.c[p]) });
        let parts = g.get_chains_from_stones(all);
        let mut seen = vec![false; pos.n()];
        for part in &parts {
            let v = sorted(pos, part.iter().map(|x| x.coord));
            ensure!(!v.is_empty() && *v.last().unwrap() < pos.n(), "a group outside the board: {v:?}");
            let mut want = pos.region(v[0]);
            want.sort_unstable();
            ensure!(v == want, "groups computed from all points: {v:?}, the board shows {want:?}\n{}", pos.show());
            for p in v {
                ensure!(!seen[p], "{:?} is in two groups", pos.ij(p));
                seen[p] = true;
            }
        }
        ensure!(seen.iter().all(|&x| x), "some points are in no group\n{}", pos.show());
    }
    Ok(())
}

pub struct C07 {
    pub stride: usize,
    pub k: usize,
}
impl Mon for C07 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        let eventful = t.before_last.as_ref().is_some_and(|b| t.pos.count(E) >= b.count(E));
        let merged = false;
        if self.k % self.stride == 0 || eventful || merged || t.plays == 0 {
            check_chains(t.g.goban(), &t.pos, &t.ana)?;
            cx.eval(t.pos.hash(), t.ana.groups.len() > 1);
            cx.add("chains_checked", t.ana.groups.len() as u64);
            cx.max("largest_chain", t.ana.groups.iter().map(|g| g.stones.len()).max().unwrap_or(0) as u64);
            cx.max("most_liberties", t.ana.groups.iter().map(|g| g.libs.len()).max().unwrap_or(0) as u64);
            cx.max("most_chains", t.ana.groups.len() as u64);
        }
        if self.k % (3 * self.stride) == 0 {
            let pts: Vec<usize> = (0..3).map(|_| cx.rng.n(t.pos.n())).collect();
            let part = t.pos.n() < 60 || cx.rng.p(0.1);
            check_search(t.g.goban(), &t.pos, &pts, part)?;
            cx.hit("searches_checked");
        }
        Ok(())
    }
    fn end(&mut self, cx: &mut Ctx, t: &Track) -> R {
        check_chains(t.g.goban(), &t.pos, &t.ana)?;
        coordinate_finding(cx, t);
        Ok(())
    }
}

/// Known finding: asked for the stones of the chain at a coordinate, the library takes the index of
/// the point for the identifier of a chain.
fn coordinate_finding(cx: &mut Ctx, t: &Track) {
    let st = stones_of(&t.pos);
    if st.is_empty() {
        return;
    }
    let p = *cx.rng.pick(&st);
    let n = t.pos.n();
    let got = catch_unwind(AssertUnwindSafe(|| {
        let v: Vec<Stone> = t.g.chain_stones(t.pos.ij(p)).take(n + 2).collect();
        sorted(&t.pos, v.iter().map(|s| s.coord))
    }));
    let want = &t.ana.groups[t.ana.label[p] as usize].stones;
    cx.hit("chain_stones_by_coordinate");
    if got.ok().as_ref() != Some(want) {
        cx.known.insert("property=C07 Goban::chain_stones called with a coordinate returns another chain or panics (the point's index is taken for a chain identifier)".into());
    }
}

pub fn c07(cx: &mut Ctx) -> R {
    if tour(cx, false, || C07 { stride: 1, k: 0 })? {
        return Ok(());
    }
    match cx.rng.n(10) {
        0 => giant_capture(cx, &mut C07 { stride: 3, k: 0 }),
        1 | 2 => multi_capture(cx, &mut C07 { stride: 1, k: 0 }),
        3 => {
            // combs: many chains joined and cut
            let s = setup(&mut cx.rng, SizeClass::Large);
            let mut pol = policy(&mut cx.rng, 500);
            pol.modes = vec![(Mode::Join, 1.0), (Mode::Random, 0.5), (Mode::CaptureBig, 0.4), (Mode::Near, 0.3)];
            std_run_with(cx, s, pol, &mut C07 { stride: 8, k: 0 })
        }
        4 => {
            let mut m = C07 { stride: 4, k: 0 };
            let (h, w) = (cx.rng.r(2, 12), cx.rng.r(2, 12));
            ko_run(cx, h, w, &mut m)
        }
        5 => edit_run(cx, 60, true),
        _ => {
            let c = any_class(cx);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, 1500);
            let pol = policy(&mut cx.rng, len);
            std_run_with(cx, s, pol, &mut C07 { stride: 1 + n / 40, k: 0 })
        }
    }
}

// ---------------------------------------------------------------- C08

/// Effect of one stone on the hash of an empty board of this size.
fn stone_key(h: usize, w: usize, p: (u8, u8), c: u8) -> u64 {
    let mut g = Goban::new((h as u8, w as u8));
    let e = g.zobrist_hash();
    g.push(p, col(c));
    g.zobrist_hash() ^ e
}

/// Two different boards with the same hash, by elimination over GF(2) on the observed stone keys.
/// With `grow`, the second is the first plus stones, no two stones touch, and playing them captures nothing.
/// The first `top` rows stay empty.
pub fn colliding_boards(cx: &mut Ctx, h: usize, w: usize, grow: bool, top: usize) -> Option<(Pos, Pos)> {
    let base = Pos::new(h, w);
    let mut cells: Vec<usize> = (top * w..h * w).filter(|q| !grow || (q / w + q % w) % 2 == 0).collect();
    cx.rng.shuffle(&mut cells);
    // stones of both colours, so that a point may differ in colour
    let both = !grow && cx.rng.p(0.5);
    // or points that differ in nothing but colour
    let swap = !grow && !both && cx.rng.p(0.4);
    if !grow {
        // all over the board, or all the differences on one side of it
        match cx.rng.n(6) {
            0 => cells.sort_by_key(|q| q / w),
            1 => cells.sort_by_key(|q| h - q / w),
            2 => cells.sort_by_key(|q| q % w),
            3 => cells.sort_by_key(|q| w - q % w),
            _ => (),
        }
    }
    cells.truncate(if both { cx.rng.r(34, 60) } else { cx.rng.r(66, 120) });
    let mut cand: Vec<(usize, u8, u64)> = vec![];
    for &q in &cells {
        let c = 1 + cx.rng.n(2) as u8;
        let key = stone_key(h, w, base.ij(q), c);
        cand.push((q, c, if swap { key ^ stone_key(h, w, base.ij(q), opp(c)) } else { key }));
        if both {
            cand.push((q, opp(c), stone_key(h, w, base.ij(q), opp(c))));
        }
    }
    if cand.len() < 66 {
        return None;
    }
    cx.rng.shuffle(&mut cand);
    // rows: (key, combination)
    let mut basis: Vec<(u64, u128)> = vec![];
    let mut kernel: Vec<u128> = vec![];
    for (i, &(_, _, key)) in cand.iter().enumerate() {
        let (mut v, mut comb) = (key, 1u128 << i);
        for &(b, bc) in &basis {
            if v ^ b < v {
                v ^= b;
                comb ^= bc;
            }
        }
        if v == 0 {
            kernel.push(comb);
        } else {
            basis.push((v, comb));
            basis.sort_by(|a, b| b.0.cmp(&a.0));
        }
    }
    if kernel.is_empty() {
        return None;
    }
    let mut comb = *cx.rng.pick(&kernel);
    if cx.rng.p(0.5) {
        let o = *cx.rng.pick(&kernel);
        if o != comb {
            comb ^= o;
        }
    }
    let (mut a, mut b) = (Pos::new(h, w), Pos::new(h, w));
    let mut used = vec![false; h * w];
    for (i, &(q, c, _)) in cand.iter().enumerate() {
        if comb >> i & 1 == 1 {
            if swap {
                a.c[q] = c;
                b.c[q] = opp(c);
            } else if used[q] {
                // the other colour stands on one of the boards
                if a.c[q] == E {
                    a.c[q] = c;
                } else {
                    b.c[q] = c;
                }
            } else if grow || cx.rng.p(0.5) {
                b.c[q] = c;
            } else {
                a.c[q] = c;
            }
            used[q] = true;
        }
    }
    for &(q, c, _) in &cand {
        if !used[q] && cx.rng.p(0.4) {
            a.c[q] = c;
            b.c[q] = c;
            used[q] = true;
        }
    }
    Some((a, b))
}

#[derive(Default)]
struct C08 {
    past: Vec<(Pos, Goban)>,
    stride: usize,
    k: usize,
}
fn same(cx: &mut Ctx, a: &Goban, b: &Goban, pa: &Pos, pb: &Pos, what: &str) -> R {
    let eq = *pa == *pb;
    cx.hit(if eq { "equal_pairs" } else { "unequal_pairs" });
    ensure!((a == b) == eq && (b == a) == eq && (a != b) != eq, "{what}: boards compare equal={}, but show\n{}and\n{}", a == b, pa.show(), pb.show());
    if eq {
        ensure!(a.zobrist_hash() == b.zobrist_hash() && std_hash(a) == std_hash(b), "{what}: equal boards with different hashes\n{}", pa.show());
    } else if a.zobrist_hash() == b.zobrist_hash() {
        cx.hit("unequal_pairs_with_equal_hash");
    }
    Ok(())
}
impl Mon for C08 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride != 0 && t.plays > 0 {
            return Ok(());
        }
        let g = t.g.goban();
        // the same position from scratch
        let mut order = stones_of(&t.pos);
        cx.rng.shuffle(&mut order);
        let fresh = rebuild(&t.pos, &order);
        same(cx, g, &fresh, &t.pos, &t.pos, "rebuilt")?;
        same(cx, g, &g.clone(), &t.pos, &t.pos, "clone")?;
        // one stone more, then taken back
        let empties = t.pos.empties();
        if !empties.is_empty() {
            let p = *cx.rng.pick(&empties);
            let c = 1 + cx.rng.n(2) as u8;
            let mut more = g.clone();
            more.push(t.pos.ij(p), col(c));
            let mut q = t.pos.clone();
            q.c[p] = c;
            same(cx, g, &more, &t.pos, &q, "one stone more")?;
            ensure!(more.zobrist_hash() != g.zobrist_hash(), "a stone at {:?} has no effect on the hash", t.pos.ij(p));
            // another single change has another effect
            let p2 = *cx.rng.pick(&empties);
            let c2 = if p2 == p { opp(c) } else { 1 + cx.rng.n(2) as u8 };
            let mut other = g.clone();
            other.push(t.pos.ij(p2), col(c2));
            let mut q2 = t.pos.clone();
            q2.c[p2] = c2;
            same(cx, &more, &other, &q, &q2, "two different single stones")?;
            ensure!(more.zobrist_hash() != other.zobrist_hash(), "stones {:?}/{c} and {:?}/{c2} have the same effect on the hash", t.pos.ij(p), t.pos.ij(p2));
            if t.pos.nb(p).all(|x| t.pos.c[x] != c) {
                // the new stone is a chain of its own: find and remove it
                if let Some(nbp) = t.pos.nb(p).next() {
                    let id = more.get_connected_groups_idx(nbp).into_iter().find(|&id| more.chain_stones(id).any(|s| s.coord == t.pos.ij(p)));
                    if let Some(id) = id {
                        more.remove_chain(id);
                        let obs = observe(&more, t.h, t.w);
                        if obs == t.pos {
                            same(cx, g, &more, &t.pos, &t.pos, "a stone added and removed")?;
                            cx.hit("additions_undone");
                        }
                    }
                }
            }
        }
        // a colour changed
        if !order.is_empty() {
            let p = order[0];
            let mut q = t.pos.clone();
            q.c[p] = opp(q.c[p]);
            let other = rebuild(&q, &order);
            same(cx, g, &other, &t.pos, &q, "one colour exchanged")?;
        }
        // a point emptied
        if !order.is_empty() {
            let p = order[order.len() - 1];
            let mut q = t.pos.clone();
            q.c[p] = E;
            let other = rebuild(&q, &order[..order.len() - 1]);
            same(cx, g, &other, &t.pos, &q, "one stone less")?;
        }
        // against earlier boards of the game
        for (p, b) in &self.past {
            same(cx, b, g, p, &t.pos, "earlier board")?;
        }
        if self.past.len() < 40 {
            self.past.push((t.pos.clone(), g.clone()));
        } else {
            let i = cx.rng.n(40);
            self.past[i] = (t.pos.clone(), g.clone());
        }
        cx.eval(t.pos.hash(), t.pos.count(E) < t.pos.n());
        Ok(())
    }
}

pub fn c08(cx: &mut Ctx) -> R {
    match cx.rng.n(8) {
        0 => {
            // the whole key table of one size: no two single stones have the same effect
            let (h, w) = if cx.rng.p(0.2) { (19, 19) } else { (cx.rng.r(1, 19), cx.rng.r(1, 19)) };
            let mut seen: HashMap<u64, (usize, u8)> = HashMap::new();
            let b = Pos::new(h, w);
            for p in 0..h * w {
                for c in [B, W] {
                    let k = stone_key(h, w, b.ij(p), c);
                    ensure!(k != 0, "a stone of colour {c} at {:?} of a {h}x{w} board does not change the hash", b.ij(p));
                    if let Some(o) = seen.insert(k, (p, c)) {
                        violated!("stones {:?}/{} and {:?}/{c} of a {h}x{w} board have the same effect on the hash", b.ij(o.0), o.1, b.ij(p));
                    }
                }
            }
            cx.add("stone_keys_compared", 2 * (h * w) as u64);
            cx.eval((h * 100 + w) as u64, true);
            Ok(())
        }
        1 | 2 => {
            let (h, w) = (cx.rng.r(3, 19), cx.rng.r(3, 19));
            let grow = cx.rng.p(0.3) && h * w >= 144;
            let Some((a, b)) = colliding_boards(cx, h, w, grow, 0) else { return Ok(()) };
            let (mut oa, mut ob) = (stones_of(&a), stones_of(&b));
            cx.rng.shuffle(&mut oa);
            cx.rng.shuffle(&mut ob);
            let (ga, gb) = (rebuild(&a, &oa), rebuild(&b, &ob));
            if ga.zobrist_hash() == gb.zobrist_hash() {
                cx.hit("constructed_hash_collisions");
            }
            cx.eval(a.hash() ^ b.hash(), true);
            cx.sample(|| format!("hash collision: {} and {}", a.line(), b.line()));
            same(cx, &ga, &gb, &a, &b, "constructed collision")?;
            let set: HashSet<&Goban> = [&ga, &gb].into_iter().collect();
            ensure!(set.len() == 2, "a set confuses two boards that share only their hash");
            Ok(())
        }
        3 => {
            // different sizes, same layout
            let sizes = [(1, 4), (4, 1), (2, 2), (1, 6), (6, 1), (2, 3), (3, 2), (9, 9), (9, 10), (10, 9), (19, 19), (3, 12), (12, 3), (6, 6), (4, 9), (18, 2)];
            let &(h, w) = cx.rng.pick(&sizes);
            let &(h2, w2) = cx.rng.pick(&sizes);
            let (mut a, mut b) = (Pos::new(h, w), Pos::new(h2, w2));
            if cx.rng.p(0.6) {
                for q in 0..a.n().min(b.n()) {
                    let c = cx.rng.n(3) as u8;
                    a.c[q] = c;
                    b.c[q] = c;
                }
            }
            let (ga, gb) = (rebuild(&a, &stones_of(&a)), rebuild(&b, &stones_of(&b)));
            cx.eval(a.hash() ^ b.hash().rotate_left(1), true);
            cx.hit("size_pairs");
            same(cx, &ga, &gb, &a, &b, "sizes")
        }
        _ => {
            let c = any_class(cx);
            let s = setup(&mut cx.rng, c);
            let n = s.h * s.w;
            let len = capped_len(cx, n, 300);
            let mut pol = policy(&mut cx.rng, len);
            pol.modes.push((Mode::Repeat, 0.3));
            std_run_with(cx, s, pol, &mut C08 { past: vec![], stride: 1 + n / 25, k: 0 })
        }
    }
}

// ---------------------------------------------------------------- C09

pub struct C09 {
    stride: usize,
    k: usize,
}
pub fn check_territory(cx: &mut Ctx, g: &Goban, pos: &Pos) -> R<(usize, usize)> {
    let (b, w) = pos.territory();
    let (tb, tw) = g.get_territories();
    let (tb, tw): (Vec<Point>, Vec<Point>) = (tb.take(pos.n() + 2).collect(), tw.take(pos.n() + 2).collect());
    for p in tb.iter().chain(&tw) {
        ensure!(p.color.is_none(), "territory lists {p:?}, which is not empty");
    }
    let (gb, gw) = (sorted(pos, tb.iter().map(|p| p.coord)), sorted(pos, tw.iter().map(|p| p.coord)));
    ensure!(gb == b && gw == w, "territory reported: black {gb:?} white {gw:?}; on the board: black {b:?} white {w:?}\n{}", pos.show());
    let counts = g.calculate_territories();
    ensure!(counts == (b.len(), w.len()), "calculate_territories() is {counts:?}, the board shows ({}, {})\n{}", b.len(), w.len(), pos.show());
    cx.add("territory_points", (b.len() + w.len()) as u64);
    Ok((b.len(), w.len()))
}
fn check_scores(cx: &mut Ctx, t: &Track, komi: f32, rule_score: u32, terr: (usize, usize)) -> R {
    let pr = t.g.prisoners();
    for bits in 0..8u32 {
        let (mut b, mut w) = (terr.0 as f64, terr.1 as f64);
        if bits & STONES != 0 {
            b += t.pos.count(B) as f64;
            w += t.pos.count(W) as f64;
        }
        if bits & PRISONERS != 0 {
            b += pr.0 as f64;
            w += pr.1 as f64;
        }
        if bits & KOMI != 0 {
            w += komi as f64;
        }
        let got = t.g.calculate_score_by(sflags(bits));
        let ok = |x: f32, y: f64| (x as f64 - y).abs() < 2e-3;
        ensure!(
            ok(got.0, b) && ok(got.1, w),
            "score under flags {bits:03b} is {got:?}, expected ({b}, {w}): territory {terr:?}, prisoners {pr:?}, komi {komi}\n{}",
            t.pos.show()
        );
        if bits == rule_score {
            let s = t.g.calculate_score();
            ensure!(ok(s.0, b) && ok(s.1, w), "calculate_score() is {s:?}, by the rule's flags {got:?}");
        }
        cx.hit("scores_checked");
    }
    Ok(())
}
impl Mon for C09 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride != 0 && t.plays > 0 {
            return Ok(());
        }
        let terr = check_territory(cx, t.g.goban(), &t.pos)?;
        let s = cx.setup.clone().unwrap();
        ensure!(t.g.komi() == s.komi, "komi() is {}, set to {}", t.g.komi(), s.komi);
        check_scores(cx, t, s.komi, s.score, terr)?;
        if cx.rng.p(0.3) {
            let mut t2 = t.clone();
            let k = *cx.rng.pick(&[0.0f32, 0.5, 6.5, -4.0, 7.3, 100.25, 3.75]);
            t2.g.set_komi(k);
            ensure!(t2.g.komi() == k, "komi() is {} after set_komi({k})", t2.g.komi());
            check_scores(cx, &t2, k, s.score, terr)?;
        }
        cx.eval(t.pos.hash() ^ t.g.prisoners().0 as u64, terr.0 + terr.1 > 0);
        Ok(())
    }
}

pub fn c09(cx: &mut Ctx) -> R {
    if tour(cx, false, || C09 { stride: 1, k: 0 })? {
        return Ok(());
    }
    let c = any_class(cx);
    let mut s = setup(&mut cx.rng, c);
    let n = s.h * s.w;
    if cx.rng.p(0.5) {
        // walls enclosing regions of all sizes
        let mut p = Pos::new(s.h, s.w);
        for _ in 0..cx.rng.r(1, 5) {
            let c = 1 + cx.rng.n(2) as u8;
            if cx.rng.p(0.5) {
                let r = cx.rng.n(s.h);
                for j in 0..s.w {
                    p.c[r * s.w + j] = c;
                }
            } else {
                let k = cx.rng.n(s.w);
                for i in 0..s.h {
                    p.c[i * s.w + k] = c;
                }
            }
        }
        for _ in 0..cx.rng.n(4) {
            let q = cx.rng.n(n);
            p.c[q] = if cx.rng.p(0.6) { E } else { 1 + cx.rng.n(2) as u8 };
        }
        settle(&mut p, 1 + cx.rng.n(2) as u8);
        s.stones = stones_of(&p).into_iter().map(|q| (q, p.c[q])).collect();
        s.kind = "walls";
        s.builder = true;
        s.turn = 1 + cx.rng.n(2) as u8;
    }
    let len = capped_len(cx, n, 400);
    let pol = policy(&mut cx.rng, len);
    std_run_with(cx, s, pol, &mut C09 { stride: 1 + n / 20, k: 0 })
}

// ---------------------------------------------------------------- C11

pub struct C11 {
    stride: usize,
    k: usize,
}
pub fn check_views(g: &Goban, pos: &Pos) -> R {
    let (h, w, n) = (pos.h, pos.w, pos.n());
    ensure!(g.size() == (h as u8, w as u8), "size() is {:?} on a {h}x{w} board", g.size());
    let v = g.to_vec();
    ensure!(v.len() == n && (0..n).all(|q| uncol(v[q]) == pos.c[q]), "to_vec() has {} entries: {:?}\n{}", v.len(), v.iter().map(|&x| uncol(x)).collect::<Vec<_>>(), pos.show());
    let m = g.matrix();
    ensure!(
        m.len() == h && m.iter().all(|r| r.len() == w) && (0..n).all(|q| uncol(m[q / w][q % w]) == pos.c[q]),
        "matrix() is {} rows of {:?}: {:?}\n{}",
        m.len(),
        m.iter().map(|r| r.len()).collect::<Vec<_>>(),
        m.iter().map(|r| r.iter().map(|&x| uncol(x)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        pos.show()
    );
    for q in 0..n {
        ensure!(uncol(g.get_color(q)) == pos.c[q], "get_color({q}) by index and {:?} by coordinate differ", pos.ij(q));
    }
    let st: Vec<Stone> = g.get_stones().take(n + 2).collect();
    ensure!(sorted(pos, st.iter().map(|s| s.coord)) == stones_of(pos), "get_stones() lists {st:?}\n{}", pos.show());
    for s in &st {
        ensure!(uncol(Some(s.color)) == pos.c[pos.idx(s.coord)], "get_stones() lists {s:?}, the board shows another colour");
    }
    for c in [E, B, W] {
        let want: Vec<usize> = (0..n).filter(|&q| pos.c[q] == c).collect();
        let a = sorted(pos, g.get_coords_by_color(mcol(c)).take(n + 2));
        ensure!(a == want, "get_coords_by_color({:?}): {a:?}\n{}", mcol(c), pos.show());
        let b: Vec<Point> = g.get_stones_by_color(mcol(c)).take(n + 2).collect();
        ensure!(b.iter().all(|x| x.color == mcol(c)) && sorted(pos, b.iter().map(|x| x.coord)) == want, "get_stones_by_color({:?}): {b:?}\n{}", mcol(c), pos.show());
    }
    let want = pos.empties();
    let mut a: Vec<usize> = g.get_empty_idx().take(n + 400).collect();
    a.sort_unstable();
    ensure!(a == want, "get_empty_idx(): {a:?}\n{}", pos.show());
    let b = sorted(pos, g.get_empty_coords().take(n + 400));
    ensure!(b == want, "get_empty_coords(): {b:?}\n{}", pos.show());
    let c = g.number_of_stones();
    ensure!(c == (pos.count(B) as u32, pos.count(W) as u32), "number_of_stones() is {c:?}\n{}", pos.show());
    let text = g.pretty_string();
    let lines: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
    ensure!(lines.len() == h && lines.iter().all(|l| l.len() == w), "printed board has {} lines of {:?} characters\n{text}", lines.len(), lines.iter().map(|l| l.len()).collect::<Vec<_>>());
    for q in 0..n {
        let ch = lines[q / w][q % w];
        let got = match ch {
            '●' => B,
            '○' => W,
            _ => E,
        };
        ensure!(got == pos.c[q], "printed board shows {ch:?} at {:?}\n{text}{}", pos.ij(q), pos.show());
        if got == E && h >= 2 && w >= 2 {
            let (i, j) = (q / w, q % w);
            let row = if i == 0 { 0 } else if i == h - 1 { 2 } else { 1 };
            let col = if j == 0 { 0 } else if j == w - 1 { 2 } else { 1 };
            let want = [['┏', '┯', '┓'], ['┠', '┼', '┨'], ['┗', '┷', '┛']][row][col];
            ensure!(ch == want, "printed board shows {ch:?} on the empty point {:?} instead of {want:?}\n{text}", pos.ij(q));
        }
    }
    ensure!(format!("{g}") == text, "Display and pretty_string differ");
    Ok(())
}
impl Mon for C11 {
    fn state(&mut self, cx: &mut Ctx, t: &Track) -> R {
        self.k += 1;
        if self.k % self.stride != 0 && t.plays > 0 {
            return Ok(());
        }
        check_views(t.g.goban(), &t.pos)?;
        ensure!(t.g.size() == (t.h as u8, t.w as u8), "size of the game is {:?}", t.g.size());
        cx.hit("positions_viewed");
        if t.h == t.w && t.h > 0 {
            let v = t.g.to_vec();
            let g2 = Goban::from(&v[..]);
            let p2 = if g2.size() == (t.h as u8, t.w as u8) { observe(&g2, t.h, t.w) } else { violated!("a board rebuilt from {} points has size {:?}", v.len(), g2.size()) };
            ensure!(p2 == t.pos && g2 == *t.g.goban(), "the board rebuilt from its vector differs\n{}rebuilt\n{}", t.pos.show(), p2.show());
            check_views(&g2, &p2)?;
            cx.hit("boards_rebuilt_from_vector");
        }
        cx.eval(t.pos.hash(), t.pos.count(E) < t.pos.n());
        Ok(())
    }
}
pub fn c11(cx: &mut Ctx) -> R {
    if tour(cx, false, || C11 { stride: 1, k: 0 })? {
        return Ok(());
    }
    let c = *cx.rng.pick(&[SizeClass::Any, SizeClass::Any, SizeClass::Tiny, SizeClass::Full, SizeClass::Medium]);
    let s = setup(&mut cx.rng, c);
    let n = s.h * s.w;
    let len = capped_len(cx, n, 400);
    let pol = policy(&mut cx.rng, len);
    std_run_with(cx, s, pol, &mut C11 { stride: 1 + n / 20, k: 0 })
}

// ---------------------------------------------------------------- C24

/// Random direct edits of a board against a plain grid.
pub fn edit_run(cx: &mut Ctx, ops: usize, chains_only: bool) -> R {
    let c = any_class(cx);
    let (h, w) = size(&mut cx.rng, c);
    let n = h * w;
    let mut pos = Pos::new(h, w);
    let mut g = Goban::new((h as u8, w as u8));
    if cx.rng.p(0.4) {
        // start from the board of a game
        let s = setup_sized(&mut cx.rng, h, w);
        let mut pol = policy(&mut cx.rng, n.min(120));
        pol.pass = 0.0;
        let mut t = start(cx, s);
        struct Nothing;
        impl Mon for Nothing {}
        run(cx, &mut t, &pol, &mut Nothing)?;
        g = t.g.goban().clone();
        pos = t.pos.clone();
    }
    cx.note(format!("editing {}", pos.line()));
    let density = cx.rng.f();
    for _ in 0..ops {
        let before = pos.clone();
        let empties = pos.empties();
        let fill = 1.0 - empties.len() as f64 / n as f64;
        let mut op = cx.rng.n(10);
        if empties.is_empty() || (fill > density && cx.rng.p(0.5)) {
            op = 8;
        }
        if empties.len() == n {
            op = 0;
        }
        match op {
            0..=5 => {
                let p = *cx.rng.pick(&empties);
                // often next to what is there
                let p = if cx.rng.p(0.5) { p } else { empties.iter().copied().filter(|&q| pos.nb(q).any(|r| pos.c[r] != E)).nth(cx.rng.n(6)).unwrap_or(p) };
                let c = 1 + cx.rng.n(2) as u8;
                cx.note(format!("push {:?} {c}", pos.ij(p)));
                if cx.rng.p(0.5) {
                    cx.drv("push", || g.push(pos.ij(p), col(c)).size());
                } else {
                    cx.drv("push_stone", || g.push_stone(Stone { coord: pos.ij(p), color: col(c) }).size());
                }
                pos.c[p] = c;
                cx.hit("stones_pushed");
            }
            6 | 7 => {
                let mut e = empties.clone();
                cx.rng.shuffle(&mut e);
                let most = if cx.rng.p(0.15) { e.len() } else { 6 };
                e.truncate(cx.rng.r(0, most));
                cx.max("stones_pushed_at_once", e.len() as u64);
                let c = 1 + cx.rng.n(2) as u8;
                let pts: Vec<(u8, u8)> = e.iter().map(|&p| pos.ij(p)).collect();
                cx.note(format!("push_many {pts:?} {c}"));
                cx.drv("push_many", || g.push_many(&pts, col(c)));
                for p in e {
                    pos.c[p] = c;
                }
                cx.hit("pushes_of_many");
            }
            _ => {
                // a chain, found as a neighbour of some point
                let p = cx.rng.n(n);
                let ids = cx.drv("get_connected_groups_idx", || g.get_connected_groups_idx(pos.ij(p)));
                if ids.is_empty() {
                    continue;
                }
                let id = ids[cx.rng.n(ids.len())];
                let stones: Vec<Stone> = cx.drv("chain_stones", || g.chain_stones(id).take(n + 1).collect());
                let pts = sorted(&pos, stones.iter().map(|s| s.coord));
                if pts.is_empty() || pts.iter().any(|&q| q >= n || pos.c[q] == E) {
                    return Err(Stop::Blocked("chain with stones that are not on the board".into()));
                }
                cx.note(format!("remove_chain {id}: {pts:?}"));
                cx.drv("remove_chain", || g.remove_chain(id));
                for q in pos.region(pts[0]) {
                    pos.c[q] = E;
                }
                cx.hit("chains_removed");
                cx.max("largest_chain_removed", pts.len() as u64);
            }
        }
        let got = observe(&g, h, w);
        ensure!(got == pos, "after {}\nbefore\n{}observed\n{}expected\n{}", cx.notes.last().unwrap(), before.show(), got.show(), pos.show());
        let ana = Ana::of(&pos);
        if ana.groups.iter().any(|g| g.libs.is_empty()) {
            cx.hit("boards_with_chains_without_liberties");
        }
        check_chains(&g, &pos, &ana)?;
        if !chains_only {
            let c = g.number_of_stones();
            ensure!(c == (pos.count(B) as u32, pos.count(W) as u32), "number_of_stones() is {c:?}\n{}", pos.show());
            let mut order = stones_of(&pos);
            cx.rng.shuffle(&mut order);
            let fresh = rebuild(&pos, &order);
            ensure!(fresh.zobrist_hash() == g.zobrist_hash() && fresh == g, "the edited board does not equal the same board made from scratch\n{}", pos.show());
        }
        cx.eval(pos.hash(), true);
    }
    let p = pos.line();
    let ops = cx.notes.len();
    cx.sample(|| format!("{ops} edits -> {p}"));
    Ok(())
}
pub fn c24(cx: &mut Ctx) -> R {
    let n = if cx.rng.p(0.1) { 300 } else { 60 };
    edit_run(cx, n, false)
}

// ---------------------------------------------------------------- C19

/// Calls and checks that it panicked or returned an error.
fn refused<T>(f: impl FnOnce() -> Result<T, String>) -> bool {
    !matches!(catch_unwind(AssertUnwindSafe(f)), Ok(Ok(_)))
}

pub fn c19(cx: &mut Ctx) -> R {
    if cx.rng.p(0.35) {
        return oversize(cx);
    }
    let c = any_class(cx);
    let s = setup(&mut cx.rng, c);
    let (h, w) = (s.h, s.w);
    let len = cx.rng.n(40);
    let pol = policy(&mut cx.rng, len);
    let mut t = start(cx, s.clone());
    struct Nothing;
    impl Mon for Nothing {}
    run(cx, &mut t, &pol, &mut Nothing)?;
    if t.paused() {
        t.apply(cx, Act::Resume).ok();
    }
    let before = game_obs(&t.g, h, w, false);
    let edge = |cx: &mut Ctx, k: usize| -> u8 { *cx.rng.pick(&[k as u8, k as u8, k as u8 + 1, 19, 20, 21, 127, 128, 254, 255]) };
    for _ in 0..8 {
        let p: (u8, u8) = match cx.rng.n(4) {
            0 => (edge(cx, h), cx.rng.n(w) as u8),
            1 => (cx.rng.n(h) as u8, edge(cx, w)),
            2 => (edge(cx, h), edge(cx, w)),
            // coordinates whose row-major index would still be on the board
            _ => {
                let i = cx.rng.n(h);
                (i as u8, (w + cx.rng.n((h - i) * w)).min(255) as u8)
            }
        };
        if (p.0 as usize) < h && (p.1 as usize) < w {
            continue;
        }
        cx.note(format!("off-board point {p:?}"));
        let color = col(1 + cx.rng.n(2) as u8);
        let mut kind = cx.rng.n(7);
        if kind == 6 && (p.0 > 25 || p.1 > 25) {
            kind = 5;
        }
        cx.hit("off_board_requests");
        cx.eval((h * 19 + w) as u64 * 100_000 + p.0 as u64 * 300 + p.1 as u64 + ((kind as u64) << 40), true);
        match kind {
            0 | 1 => {
                let g = &mut t.g;
                let ok = refused(|| {
                    if kind == 0 {
                        g.play(Move::Play(p.0, p.1));
                        Ok(())
                    } else {
                        g.try_play(Move::Play(p.0, p.1)).map(|_| ()).map_err(|e| format!("{e:?}"))
                    }
                });
                ensure!(ok, "{} at {p:?} of a {h}x{w} board was not refused", if kind == 0 { "play" } else { "try_play" });
            }
            2 => {
                let mut b = t.g.goban().clone();
                let ok = refused(|| {
                    match p.0 % 3 {
                        0 => {
                            b.push(p, color);
                        }
                        1 => b.push_many(&[p], color),
                        _ => {
                            b.push_stone(Stone { coord: p, color });
                        }
                    }
                    Ok(())
                });
                ensure!(ok, "pushing a stone at {p:?} of a {h}x{w} board was not refused");
                ensure!(observe(&b, h, w) == t.pos && chain_digest(&b) == chain_digest(t.g.goban()) && b == *t.g.goban(), "a refused push at {p:?} changed the board\n{}", observe(&b, h, w).show());
            }
            3 => {
                let mut g = t.g.clone();
                let ok = refused(|| {
                    g.put_handicap(&[p]);
                    Ok(())
                });
                ensure!(ok, "a handicap stone at {p:?} of a {h}x{w} board was not refused");
                ensure!(observe(g.goban(), h, w) == t.pos, "a refused handicap stone changed the board");
            }
            6 => {
                // a record; the move tt is a pass on these boards
                let key = if p == (19, 19) { *cx.rng.pick(&["AB", "AW"]) } else { *cx.rng.pick(&["AB", "AW", "B", "W"]) };
                let at = format!("{}{}", (b'a' + p.1) as char, (b'a' + p.0) as char);
                let sz = if h == w && cx.rng.p(0.5) { format!("{h}") } else { format!("{w}:{h}") };
                let text = match key {
                    "AB" | "AW" => format!("(;GM[1]SZ[{sz}]{key}[{at}];B[];W[])"),
                    _ if cx.rng.p(0.5) => format!("(;GM[1]SZ[{sz}];{key}[{at}])"),
                    _ => format!("(;GM[1]SZ[{sz}];B[];{key}[{at}]C[x])"),
                };
                let ok = refused(|| Game::from_sgf(&text));
                ensure!(ok, "a record with a stone outside the board was not refused: {text}");
                cx.hit("off_board_records");
            }
            _ => {
                let k = cx.rng.n(3);
                let rule = s.rule();
                let ok = refused(|| {
                    let mut b = Game::builder();
                    b.size((h as u8, w as u8)).rule(rule);
                    match k {
                        0 => b.add(Stone { coord: p, color }),
                        1 => b.put_handicap(&[p]),
                        _ => b.moves(&[Move::Play(p.0, p.1)]),
                    };
                    b.build()
                });
                ensure!(ok, "building a {h}x{w} game with a stone at {p:?} was not refused");
            }
        }
        let after = game_obs(&t.g, h, w, false);
        ensure!(before == after, "a refused request at {p:?} changed: {}", before.diff(&after));
    }
    let line = t.pos.line();
    let notes = cx.notes.join("; ");
    cx.sample(|| format!("{line}: {notes}"));
    Ok(())
}

fn oversize(cx: &mut Ctx) -> R {
    let big = |cx: &mut Ctx| -> usize { *cx.rng.pick(&[20, 20, 21, 25, 32, 52, 100, 127, 128, 200, 255]) };
    let huge = |cx: &mut Ctx| -> usize { *cx.rng.pick(&[256, 257, 256 + 9, 256 + 19, 512 + 13, 65536 + 9, (1 << 32) + 9, 275, 300, 1000]) };
    let ok = cx.rng.r(1, 19);
    let kind = cx.rng.n(5);
    let (h, w) = match cx.rng.n(3) {
        0 => (big(cx), ok),
        1 => (ok, big(cx)),
        _ => (big(cx), big(cx)),
    };
    // a board without points is no board: builder and records
    let (h, w) = if (kind == 2 || kind == 3) && cx.rng.p(0.2) { *cx.rng.pick(&[(0, ok), (ok, 0), (0, 0)]) } else { (h, w) };
    cx.note(format!("size {h}x{w} kind {kind}"));
    cx.eval((h * 1000 + w) as u64 ^ (kind as u64) << 50, true);
    cx.hit("oversize_requests");
    match kind {
        0 => ensure!(refused(|| Ok(Goban::new((h as u8, w as u8)))), "a board of {h}x{w} was not refused"),
        1 => {
            let (h, w) = if cx.rng.p(0.6) {
                match cx.rng.n(3) {
                    0 => (huge(cx), ok),
                    1 => (ok, huge(cx)),
                    _ => (huge(cx), huge(cx)),
                }
            } else {
                (h, w)
            };
            ensure!(refused(|| Ok(Game::new(GobanSizes::Custom(h, w), CHINESE))), "a game of {h}x{w} was not refused");
        }
        2 => ensure!(
            refused(|| {
                let mut b = Game::builder();
                b.size((h as u8, w as u8));
                b.build()
            }),
            "building a game of {h}x{w} was not refused"
        ),
        3 => {
            let (h, w) = if h > 0 && w > 0 && cx.rng.p(0.4) { (huge(cx), ok) } else { (h, w) };
            let text = if h == 0 || w == 0 || cx.rng.p(0.5) { format!("(;GM[1]SZ[{w}:{h}])") } else { format!("(;SZ[{}])", h.max(w)) };
            // or a size that cannot be read
            let text = if cx.rng.p(0.2) {
                cx.hit("unreadable_sizes");
                format!("(;GM[1]SZ[{}];B[])", cx.rng.pick(&["", "x", "-3", "9x9", "9:", ":9", "9:x", "19.5", "9:9:9", "4294967305", "99999999999999999999"]))
            } else {
                text
            };
            if sgf_parser_survives(&text) {
                ensure!(refused(|| Game::from_sgf(&text)), "importing {text} was not refused");
            }
        }
        _ => {
            // every supported size keeps its shape
            let (h, w) = (cx.rng.r(1, 19), cx.rng.r(1, 19));
            let g = Game::new(GobanSizes::Custom(h, w), CHINESE);
            ensure!(g.size() == (h as u8, w as u8) && g.goban().size() == g.size(), "a {h}x{w} game has size {:?}", g.size());
            ensure!(g.pseudo_legals().count() == h * w, "a {h}x{w} game has {} points", g.pseudo_legals().count());
            for (gs, k) in [(GobanSizes::Nine, 9u8), (GobanSizes::Thirteen, 13), (GobanSizes::Nineteen, 19)] {
                ensure!(Game::new(gs, CHINESE).size() == (k, k), "{gs:?} has another size");
            }
        }
    }
    Ok(())
}

pub fn sgf_parser_survives(text: &str) -> bool {
    catch_unwind(AssertUnwindSafe(|| sgf_parser::parse(text).is_ok())).is_ok()
}

// ---------------------------------------------------------------- C20

pub fn c20(cx: &mut Ctx) -> R {
    match cx.rng.n(3) {
        0 => wear_game(cx),
        _ => wear_board(cx),
    }
}

fn clone_bytes(g: &Goban) -> u64 {
    let a = alloc::live();
    let c = g.clone();
    let b = alloc::live();
    std::hint::black_box(&c);
    (b - a).max(0) as u64
}

/// Bytes a fresh board of this size may take: full of single-stone chains.
fn fresh_bytes(h: usize, w: usize) -> u64 {
    let mut p = Pos::new(h, w);
    for q in 0..p.n() {
        p.c[q] = if (q / w + q % w) % 2 == 0 { B } else { W };
    }
    clone_bytes(&rebuild(&p, &stones_of(&p))) + 4096
}

fn wear_board(cx: &mut Ctx) -> R {
    let (h, w) = match cx.rng.n(4) {
        0 => (19, 19),
        1 => (9, 9),
        2 => (cx.rng.r(2, 6), cx.rng.r(2, 6)),
        _ => (cx.rng.r(2, 19), cx.rng.r(2, 19)),
    };
    let n = h * w;
    let style = cx.rng.n(3);
    let ops = if cx.thorough() { 400_000 } else { 110_000 };
    let ops = if n > 100 { ops / if cx.rng.p(0.25) { 1 } else { 6 } } else { ops };
    cx.note(format!("wearing a {h}x{w} board, style {style}, {ops} operations"));
    let limit = 2 * fresh_bytes(h, w);
    let start_live = alloc::live();
    let mut g = Goban::new((h as u8, w as u8));
    let mut pos = Pos::new(h, w);
    let mut created = 0u64;
    let every = 20_000;
    for k in 0..ops {
        let p = cx.rng.n(n);
        let ij = pos.ij(p);
        if pos.c[p] == E && (style != 2 || cx.rng.p(0.7)) {
            let c = if style == 0 { 1 + ((p / w + p % w) % 2) as u8 } else { 1 + cx.rng.n(2) as u8 };
            if pos.nb(p).all(|q| pos.c[q] != c) {
                created += 1;
            }
            cx.drv("push", || g.push(ij, col(c)).size());
            pos.c[p] = c;
            ensure!(uncol(g.get_color(ij)) == c, "operation {k}: a stone pushed at {ij:?} is not on the board");
        } else {
            let Some(q) = pos.nb(p).find(|&q| pos.c[q] != E) else { continue };
            let want = pos.c[q];
            let ids = cx.drv("get_connected_groups_idx", || g.get_connected_groups_idx(ij));
            let mut found = None;
            for id in ids {
                let c: Vec<Stone> = cx.drv("chain_stones", || g.chain_stones(id).take(n + 1).collect());
                if c.iter().any(|s| s.coord == pos.ij(q)) {
                    found = Some((id, c));
                }
            }
            let Some((id, stones)) = found else { violated!("operation {k}: the chain at {:?} is not among those next to {ij:?}", pos.ij(q)) };
            let reg = pos.region(q);
            ensure!(stones.len() == reg.len() && stones.iter().all(|s| uncol(Some(s.color)) == want), "operation {k}: chain {id} has {} stones, the board shows {}", stones.len(), reg.len());
            cx.drv("remove_chain", || g.remove_chain(id));
            for r in reg {
                ensure!(uncol(g.get_color(r)) == E, "operation {k}: {:?} is still occupied after its chain was removed", pos.ij(r));
                pos.c[r] = E;
            }
        }
        if k % every == every - 1 || k + 1 == ops {
            let got = observe(&g, h, w);
            ensure!(got == pos, "after {k} operations the board shows\n{}instead of\n{}", got.show(), pos.show());
            check_chains(&g, &pos, &Ana::of(&pos))?;
            let fresh = rebuild(&pos, &stones_of(&pos));
            ensure!(fresh == g && fresh.zobrist_hash() == g.zobrist_hash(), "after {k} operations the board does not equal the same board made from scratch");
            if alloc::counting() {
                let b = clone_bytes(&g);
                cx.max("bytes_of_a_worn_board", b);
                ensure!(b <= limit, "after {k} operations ({created} chains created) a {h}x{w} board takes {b} bytes, a fresh one at most {}", limit / 2);
                drop(fresh);
                let live = (alloc::live() - start_live).max(0) as u64;
                // everything this loop holds: the board and the grid
                ensure!(live <= limit + 200_000 || cx.prop != "C20", "after {k} operations {live} bytes are held for a {h}x{w} board");
            }
            cx.eval(pos.hash() ^ k as u64, true);
        }
    }
    cx.add("operations", ops as u64);
    cx.add("chains_created", created);
    cx.max("chains_created_on_one_board", created);
    let l = pos.line();
    cx.sample(|| format!("{h}x{w} board after {ops} operations, {created} chains created: {l}"));
    Ok(())
}

struct Worn {
    every: usize,
    k: usize,
    limit: u64,
}
impl Mon for Worn {
    fn event(&mut self, cx: &mut Ctx, t: &Track, e: &Ev) -> R {
        if let (Some(p), Ok(())) = (e.point, e.res) {
            if e.before.c[p] == E {
                let want = place(e.before, p, e.by, t.suicide_ok());
                ensure!(t.pos == want.board, "play {} of the game: board\n{}expected\n{}", t.plays, t.pos.show(), want.board.show());
            }
        }
        self.k += 1;
        if self.k % self.every == 0 {
            check_chains(t.g.goban(), &t.pos, &t.ana)?;
            let fresh = rebuild(&t.pos, &stones_of(&t.pos));
            ensure!(fresh == *t.g.goban() && fresh.zobrist_hash() == t.g.zobrist_hash(), "after {} plays the board does not equal the same board made from scratch", t.plays);
            if alloc::counting() {
                let b = clone_bytes(t.g.goban());
                cx.max("bytes_of_a_worn_game_board", b);
                ensure!(b <= self.limit, "after {} plays a {}x{} board takes {b} bytes, a fresh one at most {}", t.plays, t.h, t.w, self.limit / 2);
            }
            cx.eval(t.pos.hash() ^ t.plays as u64, true);
        }
        Ok(())
    }
}

fn wear_game(cx: &mut Ctx) -> R {
    let (h, w) = *cx.rng.pick(&[(2, 2), (2, 3), (3, 3), (1, 8), (4, 3), (4, 4), (5, 5), (9, 9), (19, 19)]);
    let mut s = setup_sized(&mut cx.rng, h, w);
    s.illegal &= !SUPERKO & !FILLEYE;
    let n = h * w;
    let len = if n > 50 { 2500 } else { 12_000 } * if cx.thorough() { 4 } else { 1 };
    let mut pol = policy(&mut cx.rng, len);
    pol.modes = vec![(Mode::Random, 1.0), (Mode::Capture, 0.5), (Mode::SelfCapture, 0.2)];
    pol.resume = 1.0;
    pol.occupied = 0.0;
    pol.pass = 0.01;
    let mut m = Worn { every: 400, k: 0, limit: 2 * fresh_bytes(h, w) };
    let mut t = start(cx, s);
    // run without the full record of acts
    for _ in 0..pol.len {
        let Some(act) = next_act(cx, &t, &pol) else { break };
        let r = step(cx, &mut t, act, &mut m)?;
        cx.acts.clear();
        if r.is_err() && t.pos.empties().iter().all(|&p| t.g.check_point(t.pos.ij(p)).is_some()) && !t.paused() {
            let _ = step(cx, &mut t, Act::Try(Move::Pass), &mut m)?;
        }
    }
    cx.add("operations", t.plays as u64);
    cx.max("plays_in_one_game", t.plays as u64);
    cx.sample_game(&t, t.plays);
    Ok(())
}

/// Points per colour, for messages.
#[allow(dead_code)]
pub fn tally(pos: &Pos) -> BTreeMap<u8, usize> {
    let mut m = BTreeMap::new();
    for &c in &pos.c {
        *m.entry(c).or_insert(0) += 1;
    }
    m
}
