//! Monitors of SGF import: C13 C14.
use super::board::*;
use super::game::same_future;
use crate::ctx::*;
use crate::drive::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::rng::Rng;
use crate::{ensure, violated};
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{EndGame, Move, CHINESE, JAPANESE};

/// A record: what the text says, independent of how it is written down.
#[derive(Clone, Debug)]
pub struct Rec {
    pub h: usize,
    pub w: usize,
    /// 0 Japanese, 1 Chinese
    pub rule: Option<usize>,
    pub komi: Option<String>,
    pub handicap: Option<u32>,
    pub setup: Vec<(usize, u8)>,
    pub player: Option<u8>,
    pub result: Option<(String, EndGame)>,
    pub moves: Vec<(u8, Option<usize>)>,
}

pub fn sgf_pt(pos: &Pos, p: usize) -> String {
    let (i, j) = pos.ij(p);
    format!("{}{}", (b'a' + j) as char, (b'a' + i) as char)
}

fn komi_text(rng: &mut Rng) -> String {
    rng.pick(&["6.5", "7.5", "0", "0.5", "-3.5", "7", "5.50", "375.0", "6.75", "-0.5", "12", "-150", "1000.5"]).to_string()
}

fn result(rng: &mut Rng) -> (String, EndGame) {
    let c = 1 + rng.n(2) as u8;
    let l = if c == B { "B" } else { "W" };
    let k = col(c);
    match rng.n(8) {
        0 => (format!("{l}+R"), EndGame::WinnerByResign(k)),
        1 => (format!("{l}+Resign"), EndGame::WinnerByResign(k)),
        2 => (format!("{l}+T"), EndGame::WinnerByTime(k)),
        3 => (format!("{l}+F"), EndGame::WinnerByForfeit(k)),
        4 => (format!("{l}+3.5"), EndGame::WinnerByScore(k, 3.5)),
        5 => {
            let x = rng.n(1500) as f32 * 0.25;
            (format!("{l}+{x}"), EndGame::WinnerByScore(k, x))
        }
        6 => ("Draw".into(), EndGame::Draw),
        _ => ("D".into(), EndGame::Draw),
    }
}

/// How a record is written down.
struct Layout {
    spaces: bool,
    comments: bool,
    unknown: bool,
    variations: bool,
    shuffle: bool,
    split_values: bool,
    move_in_root: bool,
}

impl Layout {
    fn random(rng: &mut Rng) -> Layout {
        Layout {
            spaces: rng.p(0.5),
            comments: rng.p(0.5),
            unknown: rng.p(0.5),
            variations: rng.p(0.4),
            shuffle: rng.p(0.6),
            split_values: rng.p(0.5),
            move_in_root: rng.p(0.1),
        }
    }
    fn plain() -> Layout {
        Layout { spaces: false, comments: false, unknown: false, variations: false, shuffle: false, split_values: false, move_in_root: false }
    }
}

fn gap(rng: &mut Rng, l: &Layout) -> &'static str {
    if l.spaces {
        rng.pick(&["", "", " ", "\n", "  ", "\r\n", " \n "])
    } else {
        ""
    }
}

fn comment(rng: &mut Rng) -> String {
    rng.pick(&[
        "C[good move]",
        "C[a (bracketed; remark) ]",
        "C[an escaped \\] bracket ;B[aa\\]]",
        "C[]",
        "C[PL is here: W]",
        "C[two\nlines]",
        "N[node]",
        "C[caf\u{e9} \u{56f2}\u{7881}]",
        "C[;W[zz\\] SZ[3\\](]",
    ])
    .to_string()
}
fn unknown_prop(rng: &mut Rng, n: usize) -> String {
    let p = (b'a' + (n as u8 - 1).min(18)) as char;
    match rng.n(10) {
        0 => "XX[anything]".into(),
        1 => "ZZZ[1][2][3]".into(),
        2 => format!("TR[{p}{p}]"),
        3 => format!("SQ[aa]LB[{p}a:1]"),
        4 => "BL[300]".into(),
        5 => "WL[77]OW[4]".into(),
        6 => "TM[600]OT[3x30]".into(),
        7 => "MN[7]".into(),
        8 => "TB[aa][bb]TW[cc]".into(),
        _ => "VW[]".into(),
    }
}

/// Moves of a side line; never looked at by an importer of the main line.
fn side_line(rng: &mut Rng, h: usize, w: usize) -> String {
    let mut s = String::from("(");
    let blank = Pos::new(h, w);
    for _ in 0..rng.r(1, 4) {
        let p = blank.ij(rng.n(h * w));
        s += &format!(";{}[{}{}]", if rng.p(0.5) { "B" } else { "W" }, (b'a' + p.1) as char, (b'a' + p.0) as char);
    }
    if rng.p(0.3) {
        s += "(;B[])(;W[aa])";
    }
    s + ")"
}

fn write(rng: &mut Rng, r: &Rec, l: &Layout) -> String {
    let pos = Pos::new(r.h, r.w);
    let mut root: Vec<String> = vec!["GM[1]".into(), "FF[4]".into()];
    if rng.p(0.3) {
        root = vec![];
    }
    if (r.h, r.w) != (19, 19) || rng.p(0.7) {
        root.push(if r.h == r.w { format!("SZ[{}]", r.w) } else { format!("SZ[{}:{}]", r.w, r.h) });
    }
    if let Some(x) = r.rule {
        root.push(format!("RU[{}]", ["Japanese", "Chinese"][x]));
    }
    if let Some(k) = &r.komi {
        root.push(format!("KM[{k}]"));
    }
    if let Some(k) = r.handicap {
        root.push(format!("HA[{k}]"));
    }
    if let Some(p) = r.player {
        root.push(format!("PL[{}]", if p == B { "B" } else { "W" }));
    }
    if let Some((s, _)) = &r.result {
        root.push(format!("RE[{s}]"));
    }
    for c in [B, W] {
        let v: Vec<String> = r.setup.iter().filter(|s| s.1 == c).map(|s| format!("[{}]", sgf_pt(&pos, s.0))).collect();
        let id = if c == B { "AB" } else { "AW" };
        if v.is_empty() {
            continue;
        }
        if l.split_values {
            for x in v {
                root.push(format!("{id}{x}"));
            }
        } else {
            root.push(format!("{id}{}", v.join(gap(rng, l))));
        }
    }
    if l.unknown {
        root.push("AP[gmon:1]".into());
        root.push("CA[UTF-8]".into());
        root.push("PB[Black]BR[3d]".into());
        root.push("PW[White \\] name]".into());
        root.push("DT[2024-01-01]".into());
        root.push(unknown_prop(rng, r.w));
    }
    if l.comments {
        root.push(comment(rng));
    }
    let mv = |m: &(u8, Option<usize>), rng: &mut Rng| -> String {
        let id = if m.0 == B { "B" } else { "W" };
        match m.1 {
            Some(p) => format!("{id}[{}]", sgf_pt(&pos, p)),
            None => format!("{id}[{}]", if rng.p(0.5) { "" } else { "tt" }),
        }
    };
    let mut rest = &r.moves[..];
    if l.move_in_root && !rest.is_empty() {
        let s = mv(&rest[0], rng);
        root.push(s);
        rest = &rest[1..];
    }
    if l.shuffle {
        rng.shuffle(&mut root);
    }
    let mut s = format!("{}(;", if l.spaces { rng.pick(&["", " ", "\n"]) } else { &"" }).trim_start().to_string();
    for p in root {
        s += &p;
        s += gap(rng, l);
    }
    let mut closing: Vec<String> = vec![];
    for (k, m) in rest.iter().enumerate() {
        if l.variations && rng.p(0.08) && closing.len() < 6 {
            // the main line goes on in the first child
            s += "(";
            let mut tail = String::from(")");
            for _ in 0..rng.n(3) {
                tail += &side_line(rng, r.h, r.w);
                tail += gap(rng, l);
            }
            closing.push(tail);
        }
        s += gap(rng, l);
        s += ";";
        s += gap(rng, l);
        let mut props = vec![mv(m, rng)];
        if l.comments && rng.p(0.3) {
            props.push(comment(rng));
        }
        if l.unknown && rng.p(0.3) {
            props.push(unknown_prop(rng, r.w));
        }
        if l.unknown && rng.p(0.1) {
            props.push(unknown_prop(rng, r.w));
        }
        if l.shuffle {
            rng.shuffle(&mut props);
        }
        for p in props {
            s += &p;
            s += gap(rng, l);
        }
        // an empty node now and then
        if (l.comments || l.unknown) && rng.p(0.03) {
            s += ";";
            if rng.p(0.5) {
                s += &comment(rng);
            }
        }
        let _ = k;
    }
    while let Some(t) = closing.pop() {
        s += &t;
    }
    s += ")";
    s
}

/// A legal game, and the record of it.
fn record(cx: &mut Ctx) -> R<(Rec, Option<Track>)> {
    let class = *cx.rng.pick(&[SizeClass::Any, SizeClass::Any, SizeClass::Small, SizeClass::Full, SizeClass::Tiny, SizeClass::Medium]);
    let (mut h, mut w) = size(&mut cx.rng, class);
    // a record of thousands of moves
    let long = cx.rng.p(0.004);
    if long {
        (h, w) = (cx.rng.r(5, 14), cx.rng.r(5, 14));
    }
    let n = h * w;
    let blank = Pos::new(h, w);
    let rule = if cx.rng.p(0.85) { Some(cx.rng.n(2)) } else { None };
    let mut setup: Vec<(usize, u8)> = vec![];
    let mut handicap = None;
    match cx.rng.n(5) {
        0 | 1 if n > 12 => {
            // handicap stones
            let k = cx.rng.r(2, 9.min(n / 3));
            while setup.len() < k {
                let p = cx.rng.n(n);
                if !setup.iter().any(|s| s.0 == p) {
                    setup.push((p, B));
                }
            }
            let mut p = blank.clone();
            for &(q, c) in &setup {
                p.c[q] = c;
            }
            if Ana::of(&p).groups.iter().any(|g| g.libs.is_empty()) {
                setup.clear();
            } else {
                handicap = Some(k as u32);
            }
        }
        2 | 3 => {
            let (p, _) = position(&mut cx.rng, h, w);
            setup = stones_of(&p).into_iter().map(|q| (q, p.c[q])).collect();
            cx.rng.shuffle(&mut setup);
        }
        _ => (),
    }
    if handicap.is_none() && cx.rng.p(0.1) {
        handicap = Some(0);
    }
    let player = if cx.rng.p(0.3) { Some(1 + cx.rng.n(2) as u8) } else { None };
    let first = player.unwrap_or(if handicap.unwrap_or(0) > 0 { W } else { B });
    // the first recorded move may be by either colour
    let mover = if cx.rng.p(0.9) { first } else { opp(first) };
    let komi = if cx.rng.p(0.7) { Some(komi_text(&mut cx.rng)) } else { None };
    let result = if cx.rng.p(0.4) { Some(result(&mut cx.rng)) } else { None };
    let mut rec = Rec { h, w, rule, komi, handicap, setup, player, result, moves: vec![] };
    let len = match cx.rng.n(6) {
        _ if long => cx.rng.r(700, 3000),
        0 => cx.rng.n(4),
        1 => n + cx.rng.n(n + 10),
        _ => cx.rng.n(n.min(120) + 4),
    };
    if cx.rng.p(if long { 0.7 } else { 0.15 }) {
        // a record where a player makes several moves in a row; legal by the model
        let mut pos = blank.clone();
        for &(q, c) in &rec.setup {
            pos.c[q] = c;
        }
        let mut seen = vec![pos.clone()];
        let mut c = mover;
        let mut passes = 0;
        for _ in 0..if long { len } else { len.min(80) } {
            if cx.rng.p(0.05) && passes == 0 {
                rec.moves.push((c, None));
                passes += 1;
            } else {
                let a = Ana::of(&pos);
                let e = pos.empties();
                let caps: Vec<usize> = e.iter().copied().filter(|&p| !a.captures(&pos, p, c).is_empty()).collect();
                let pick = if !caps.is_empty() && cx.rng.p(0.7) { *cx.rng.pick(&caps) } else if e.is_empty() { break } else { *cx.rng.pick(&e) };
                if a.self_capture(&pos, pick, c) {
                    c = if long { opp(c) } else { c };
                    continue;
                }
                let next = place(&pos, pick, c, false).board;
                if seen.contains(&next) {
                    c = if long { opp(c) } else { c };
                    continue;
                }
                passes = 0;
                pos = next;
                seen.push(pos.clone());
                rec.moves.push((c, Some(pick)));
            }
            if cx.rng.p(0.7) {
                c = opp(c);
            }
        }
        cx.hit("records_with_moves_in_a_row");
        return Ok((rec, None));
    }
    let rl = if rule == Some(0) { JAPANESE } else { CHINESE };
    let mut b = Game::builder();
    b.size((h as u8, w as u8)).rule(rl).turn(col(if len == 0 { first } else { mover }));
    if let Some(k) = &rec.komi {
        b.komi(k.parse().unwrap());
    }
    if let Some(k) = handicap {
        b.handicap(k);
    }
    for &(q, c) in &rec.setup {
        b.add(Stone { coord: blank.ij(q), color: col(c) });
    }
    if let Some((_, o)) = &rec.result {
        b.outcome(*o);
    }
    let g = match b.build() {
        Ok(g) => g,
        Err(e) => return Err(Stop::Blocked(format!("the reference setup is refused: {e}"))),
    };
    let mut t = Track::from_game(h, w, bits(rl.flag_illegal), g);
    let mut pol = policy(&mut cx.rng, len);
    pol.resign = 0.0;
    pol.occupied = 0.0;
    pol.raw = 0.0;
    if long {
        pol.modes = vec![(Mode::Random, 1.0), (Mode::Capture, 0.7)];
        pol.pass = 0.01;
    }
    for _ in 0..pol.len {
        if t.paused() {
            break;
        }
        let c = t.turn;
        let Some(act) = next_act(cx, &t, &pol) else { break };
        let m = match act {
            Act::Try(m) | Act::Raw(m) => m,
            _ => continue,
        };
        if t.apply(cx, Act::Try(m)).is_ok() {
            rec.moves.push((
                c,
                match m {
                    Move::Play(i, j) => Some(blank.idx((i, j))),
                    _ => None,
                },
            ));
        }
    }
    if rec.moves.is_empty() && t.turn != first {
        // the record does not say who is to move then
        rec.player = Some(t.turn);
    }
    Ok((rec, Some(t)))
}

pub fn c13(cx: &mut Ctx) -> R {
    let (rec, track) = record(cx)?;
    cx.acts.clear();
    let (h, w) = (rec.h, rec.w);
    // what the record says, by the model
    let mut pos = Pos::new(h, w);
    for &(q, c) in &rec.setup {
        pos.c[q] = c;
    }
    let (mut by_b, mut by_w) = (0u32, 0u32);
    let mut turn = rec.player.unwrap_or(if rec.handicap.unwrap_or(0) > 0 { W } else { B });
    let mut passes = 0;
    for &(c, m) in &rec.moves {
        turn = opp(c);
        match m {
            None => passes += 1,
            Some(p) => {
                passes = 0;
                let x = place(&pos, p, c, false);
                if c == B {
                    by_b += x.ncap() as u32
                } else {
                    by_w += x.ncap() as u32
                }
                pos = x.board;
            }
        }
    }
    let komi = match (&rec.komi, rec.rule) {
        (Some(k), _) => Some(k.parse::<f32>().unwrap()),
        (None, Some(0)) => Some(JAPANESE.komi),
        (None, Some(_)) => Some(CHINESE.komi),
        (None, None) => None,
    };
    let mut first: Option<Obs> = None;
    for k in 0..3 {
        let l = if k == 0 { Layout::plain() } else { Layout::random(&mut cx.rng) };
        let text = write(&mut cx.rng, &rec, &l);
        cx.notes.clear();
        cx.note(format!("record: {text}"));
        let mut g = match Game::from_sgf(&text) {
            Ok(g) => g,
            Err(e) => violated!("a well-formed record of a legal game is refused: {e}\n{text}"),
        };
        cx.hit("records_imported");
        ensure!(g.size() == (h as u8, w as u8), "the {h} rows x {w} columns record gives a board of {:?}\n{text}", g.size());
        let got = observe(g.goban(), h, w);
        ensure!(got == pos, "imported board\n{}expected\n{}{text}", got.show(), pos.show());
        ensure!(g.prisoners() == (by_b, by_w), "prisoners {:?}, expected {:?}\n{text}", g.prisoners(), (by_b, by_w));
        ensure!(uncol(Some(g.turn())) == turn, "{:?} is to play, expected {turn}\n{text}", g.turn());
        if let Some(k) = komi {
            ensure!(g.komi() == k, "komi {}, expected {k}\n{text}", g.komi());
        }
        match &rec.result {
            Some((s, o)) => {
                ensure!(g.is_over() && g.outcome() == Some(*o), "result {s}: over {}, outcome {:?}\n{text}", g.is_over(), g.outcome());
            }
            None => {
                ensure!(g.is_over() == (passes >= 2), "is_over() is {} after {passes} passes\n{text}", g.is_over());
                ensure!(g.outcome().is_some() == (passes >= 2), "outcome {:?} after {passes} passes\n{text}", g.outcome());
            }
        }
        check_chains(g.goban(), &pos, &Ana::of(&pos))?;
        let o = game_obs(&g, h, w, h * w < 170);
        match &first {
            None => first = Some(o.clone()),
            Some(f) => ensure!(*f == o, "two ways to write the same record differ in {}\n{text}", f.diff(&o)),
        }
        if let (Some(t), Some(_)) = (&track, rec.rule) {
            let want = game_obs(&t.g, h, w, h * w < 170);
            ensure!(want == o, "the imported game and the one played by hand differ in {}\n{text}", want.diff(&o));
            if k > 0 {
                let mut twin = t.g.clone();
                same_future(cx, &mut g, &mut twin, h, w, 6, "the imported game and the one played by hand")?;
            }
            cx.hit("compared_with_hand_played_game");
        }
        if l.variations {
            cx.hit("records_with_side_lines");
        }
        if l.move_in_root && !rec.moves.is_empty() {
            cx.hit("records_with_a_move_in_the_root");
        }
        cx.eval(o.digest(), !rec.moves.is_empty() || !rec.setup.is_empty());
    }
    if cx.rng.p(0.06) {
        // the same record, of something that is not a game the library can play
        let kind = cx.rng.n(4);
        let mut text = write(&mut cx.rng, &rec, &Layout::plain());
        match kind {
            0 => {
                let n = loop {
                    let n = cx.rng.n(256);
                    if n != 1 {
                        break n;
                    }
                };
                text = text.replacen("GM[1]", &format!("GM[{n}]"), 1);
                if !text.contains(&format!("GM[{n}]")) {
                    text = text.replacen("(;", &format!("(;GM[{n}]"), 1);
                }
            }
            1 => {
                let r = *cx.rng.pick(&["AGA", "NZ", "GOE", "Ing", "Tromp-Taylor", "japan", "J", "Lasker"]);
                for known in ["RU[Japanese]", "RU[Chinese]"] {
                    text = text.replacen(known, "", 1);
                }
                text = text.replacen("(;", &format!("(;RU[{r}]"), 1);
            }
            _ => {
                // a stone on a stone: some stone still there at the end, or off the board
                let on: Vec<usize> = (0..pos.n()).filter(|&q| pos.c[q] != 0).collect();
                let c = 1 + cx.rng.n(2) as u8;
                let id = if c == B { "B" } else { "W" };
                let off = kind == 2 || on.is_empty();
                let v = if off {
                    let (i, j) = match cx.rng.n(3) {
                        0 => (cx.rng.r(h, 25), cx.rng.n(w)),
                        1 => (cx.rng.n(h), cx.rng.r(w, 25)),
                        _ => (cx.rng.r(h, 25), cx.rng.r(w, 25)),
                    };
                    if (i, j) == (19, 19) {
                        return Ok(());
                    }
                    format!("{}{}", (b'a' + j as u8) as char, (b'a' + i as u8) as char)
                } else {
                    sgf_pt(&pos, *cx.rng.pick(&on))
                };
                text.truncate(text.rfind(')').unwrap());
                text += &format!(";{id}[{v}])");
            }
        }
        let what = ["another game", "a rule the library does not know", "a stone outside the board or on another", "a stone on another"][kind];
        cx.notes.clear();
        cx.note(format!("record: {text}"));
        cx.hit("records_of_something_else");
        match crate::ctx::oracle("from_sgf", || Game::from_sgf(&text)) {
            Err(_) => (),
            Ok(_) => violated!("a record of {what} is imported as if it were not\n{text}"),
        }
        return Ok(());
    }
    if h != w {
        cx.hit("rectangular_records");
    }
    if by_b + by_w > 0 {
        cx.hit("records_with_captures");
    }
    if rec.moves.iter().any(|m| m.1.is_none()) {
        cx.hit("records_with_passes");
    }
    cx.add("moves_imported", rec.moves.len() as u64);
    cx.max("moves_in_one_record", rec.moves.len() as u64);
    let note = cx.notes[0].clone();
    if rec.moves.len() < 30 {
        cx.sample(|| note);
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn nasty_number(rng: &mut Rng) -> String {
    rng.pick(&[
        "0", "1", "2", "9", "13", "19", "20", "21", "25", "26", "52", "127", "128", "255", "256", "257", "265", "512", "65535", "65536", "65545",
        "4294967295", "4294967296", "4294967305", "99999999999999999999", "-1", "-0", "1e9", "1e999", "NaN", "nan", "inf", "-inf", "", " 9", "9 ",
        "09", "+9", "0x9", "9.0", "9:", ":9", "9:9", "9:13", "13:9", "1:1", "1:19", "19:1", "0:0", "0:9", "9:0", "20:19", "19:20", "256:256",
        "265:265", "9:9:9", "a", "9a", "\u{663}",
    ])
    .to_string()
}
fn nasty_point(rng: &mut Rng) -> String {
    let c = |rng: &mut Rng| match rng.n(10) {
        0 => *rng.pick(b"tuvwxyz") as char,
        1 => *rng.pick(b"ABCSTUZ") as char,
        2 => *rng.pick(b"`{@[!~0 19") as char,
        3 => *rng.pick(&['\u{e9}', '\u{ff}', '\u{100}', '\u{1f600}', '\u{7f}', '\u{1}']),
        _ => (b'a' + rng.n(19) as u8) as char,
    };
    let s: String = match rng.n(14) {
        0 => String::new(),
        1 => c(rng).to_string(),
        2 => (0..3).map(|_| c(rng)).collect(),
        3 => "tt".into(),
        4 => (0..2).map(|_| c(rng)).chain(":".chars()).chain((0..2).map(|_| 's')).collect(),
        _ => (0..2).map(|_| c(rng)).collect(),
    };
    s.replace(']', "\\]").replace('[', "b")
}
fn nasty_text(rng: &mut Rng) -> String {
    rng.pick(&["", "B", "W", "b", "White", "black", "Japanese", "Chinese", "AGA", "NZ", "GOE", "japanese", "chinese", "B+", "W+R", "B+0", "B+-3", "B+NaN", "B+inf", "Void", "?", "0", "Draw", "D", "+", "B+R+W", "\\]", "\\", "\u{56f2}", "1", "2", "W+1e40"]).to_string()
}

fn grammar_text(rng: &mut Rng) -> String {
    let ids = ["B", "W", "AB", "AW", "AE", "SZ", "KM", "HA", "RU", "RE", "PL", "GM", "FF", "C", "CA", "AP", "ST", "XX", "LB", "TR", "BL", "OB", "TM", "Black", "SiZe", "PLx", "AddB", "KO", "MN"];
    let small = rng.n(3);
    let prop = |rng: &mut Rng| {
        let id = if rng.p(0.45) { *rng.pick(&["B", "W", "AB", "AW"]) } else { *rng.pick(&ids) };
        let mut s = id.to_string();
        let k = if rng.p(0.8) { 1 } else { rng.r(1, 4) };
        for _ in 0..k {
            let v = match id {
                "B" | "W" | "AB" | "AW" | "AE" | "TR" | "Black" | "AddB" => {
                    if small == 0 && rng.p(0.8) {
                        format!("{}{}", (b'a' + rng.n(3) as u8) as char, (b'a' + rng.n(3) as u8) as char)
                    } else {
                        nasty_point(rng)
                    }
                }
                "SZ" | "SiZe" => {
                    if rng.p(0.5) {
                        rng.r(1, 19).to_string()
                    } else if rng.p(0.4) {
                        format!("{}:{}", rng.r(1, 20), rng.r(1, 20))
                    } else {
                        nasty_number(rng)
                    }
                }
                "KM" | "HA" | "FF" | "TM" | "BL" | "OB" | "GM" | "ST" | "MN" => {
                    if id == "GM" && rng.p(0.7) {
                        "1".into()
                    } else {
                        nasty_number(rng)
                    }
                }
                "RU" => if rng.p(0.5) { "Japanese".into() } else if rng.p(0.5) { "Chinese".into() } else { nasty_text(rng) },
                "PL" => if rng.p(0.7) { rng.pick(&["B", "W"]).to_string() } else { nasty_text(rng) },
                "LB" => format!("{}:{}", nasty_point(rng), nasty_text(rng)),
                _ => nasty_text(rng),
            };
            s += &format!("[{v}]");
        }
        s
    };
    let mut s = String::from("(;");
    if small == 0 {
        s += rng.pick(&["SZ[3]", "SZ[2]", "SZ[1]", "SZ[3:2]", "SZ[2:5]", "SZ[3]RU[Chinese]", "SZ[3]RU[Japanese]"]);
    } else if rng.p(0.5) {
        s += rng.pick(&["SZ[9]", "SZ[19]", "SZ[5:9]", "SZ[13]", "SZ[19:1]"]);
    }
    for _ in 0..rng.n(6) {
        s += &prop(rng);
    }
    let mut depth = 1;
    for _ in 0..rng.n(if small == 0 { 60 } else { 25 }) {
        if rng.p(0.05) {
            s += "(";
            depth += 1;
        }
        s += ";";
        let k = if rng.p(0.8) { 1 } else { rng.n(4) };
        for _ in 0..k {
            s += &prop(rng);
        }
    }
    for _ in 0..depth {
        s += ")";
    }
    s
}

fn mutate(rng: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..rng.r(1, 6) {
        if c.is_empty() {
            break;
        }
        let i = rng.n(c.len());
        match rng.n(7) {
            0 => {
                c.remove(i);
            }
            1 => {
                let x = *rng.pick(&['(', ')', ';', '[', ']', '\\', 'B', 'W', 't', 'z', ' ', '\n', '1', '9', ':', '\u{e9}', '-', '.']);
                c.insert(i, x);
            }
            2 => c[i] = *rng.pick(&['a', 's', 't', '0', '2', 'S', 'P', 'L', ']', '[']),
            3 => {
                // duplicate a piece
                let j = (i + rng.r(1, 20)).min(c.len());
                let piece: Vec<char> = c[i..j].to_vec();
                let at = rng.n(c.len() + 1);
                for (k, x) in piece.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            4 => {
                let j = (i + rng.r(1, 10)).min(c.len());
                c.drain(i..j);
            }
            5 => c.truncate(i.max(2)),
            _ => {
                let j = rng.n(c.len());
                c.swap(i, j);
            }
        }
    }
    c.into_iter().collect()
}

pub fn c14(cx: &mut Ctx) -> R {
    for _ in 0..6 {
        let text = match cx.rng.n(10) {
            0..=5 => grammar_text(&mut cx.rng),
            6 | 7 => {
                let (rec, _) = record(cx)?;
                let l = Layout::random(&mut cx.rng);
                let t = write(&mut cx.rng, &rec, &l);
                mutate(&mut cx.rng, &t)
            }
            8 => {
                let t = grammar_text(&mut cx.rng);
                mutate(&mut cx.rng, &t)
            }
            _ => {
                // repeated points, plays on occupied points, passes after the end
                let k = cx.rng.r(1, 5);
                let mut t = format!("(;SZ[{k}]AB[aa]");
                for _ in 0..cx.rng.n(40) {
                    let id = *cx.rng.pick(&["B", "W"]);
                    let v = if cx.rng.p(0.15) {
                        String::new()
                    } else {
                        format!("{}{}", (b'a' + cx.rng.n(k) as u8) as char, (b'a' + cx.rng.n(k) as u8) as char)
                    };
                    t += &format!(";{id}[{v}]");
                }
                t + ")"
            }
        };
        cx.acts.clear();
        cx.notes.clear();
        cx.note(format!("text: {text:?}"));
        if !sgf_parser_survives(&text) {
            cx.hit("texts_the_parser_dependency_does_not_survive");
            continue;
        }
        cx.hit("texts");
        let r = crate::ctx::oracle("from_sgf", || Game::from_sgf(&text));
        let mut h64 = 0u64;
        for b in text.bytes() {
            h64 = crate::rng::mix(h64 ^ b as u64);
        }
        cx.eval(h64, r.is_ok());
        match r {
            Err(e) => {
                cx.hit("texts_refused");
                std::hint::black_box(e.len());
            }
            Ok(g) => {
                cx.hit("texts_giving_a_game");
                let s = g.size();
                let (h, w) = (s.0 as usize, s.1 as usize);
                ensure!((1..=19).contains(&h) && (1..=19).contains(&w), "a board of {h}x{w} was imported from {text:?}");
                ensure!(g.goban().size() == s && g.matrix().len() == h && g.to_vec().len() == h * w, "the imported game is not a board of {h}x{w}: {text:?}");
                let pos = observe(g.goban(), h, w);
                let ana = Ana::of(&pos);
                check_chains(g.goban(), &pos, &ana)?;
                check_views(g.goban(), &pos)?;
                std::hint::black_box((g.outcome(), g.is_over(), g.calculate_score(), g.turn(), g.komi(), g.prisoners()));
                let n = pos.n();
                let pts = pos.empties();
                for &p in pts.iter().take(40) {
                    std::hint::black_box(g.check_point(pos.ij(p)));
                }
                // usable: it can be played on
                let mut g = g.clone();
                let stuck = ana.groups.iter().any(|x| x.libs.is_empty());
                if !stuck {
                    for _ in 0..cx.rng.n(12) {
                        let p = pos.ij(cx.rng.n(n));
                        let m = if cx.rng.p(0.1) { Move::Pass } else { Move::Play(p.0, p.1) };
                        if g.try_play(m).is_err() && g.is_over() {
                            g.resume();
                        }
                    }
                    let pos = observe(g.goban(), h, w);
                    check_chains(g.goban(), &pos, &Ana::of(&pos))?;
                } else {
                    cx.hit("imported_setups_with_a_chain_without_liberty");
                }
                cx.sample(|| text.clone());
            }
        }
    }
    Ok(())
}

/// Text for transcripts: well-formed records and texts that are refused. Nothing on which the
/// parser dependency itself behaves differently in builds with and without overflow checks.
pub fn any_text(cx: &mut Ctx) -> R<String> {
    let fixed = [
        "(;SZ[3]AB[aa]AW[ba];B[ca];W[ab];B[])",
        "(;SZ[2:3]RU[Japanese]KM[0.5];B[aa];W[bc](;B[ab])(;B[bb]))",
        "(;SZ[20];B[aa])",
        "(;SZ[1];B[aa];W[aa])",
        "(;SZ[3];B[zz])",
        "(;SZ[256:265];B[aa])",
        "(;SZ[9]RU[AGA])",
        "(;SZ[9]PL[x])",
        "(;GM[2]SZ[9])",
        "(;SZ[9]AB[aa]AB[aa])",
        "(;SZ[9];B[];W[];B[])",
        "",
        "(;",
    ];
    if super::total::tiny() || cx.rng.p(0.2) {
        return Ok(cx.rng.pick(&fixed).to_string());
    }
    let (rec, _) = record(cx)?;
    let l = Layout::random(&mut cx.rng);
    Ok(write(&mut cx.rng, &rec, &l))
}
