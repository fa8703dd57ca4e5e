From ba9d238feb5a369aab929a973596905c9daf20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 01/21] fix: index boards row-major by their width

Rectangular boards mixed height and width when converting between
coordinates and indices, so distinct intersections shared an index.
---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 2b1681805b9e23bbf88db45aa30f4506cb22c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 02/21] fix: by-colour queries on empty points and on boards
 over 255 points

get_coords_by_color(EMPTY) returned every point, and the u8 product
height * width overflowed for boards of 16x16 and more (also in
pseudo_legals_vec).
---
 src/pieces/goban.rs | 10 +++-------
 src/rules/game.rs   |  2 +-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..499af39 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -390,13 +390,9 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
-            match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
-                Some(c) => self.board[board_idx]
-                    .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
-                    .map(|_| res.push(one_to_2dim(self.size, board_idx)))
-                    .unwrap_or(()),
+        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {
+            if self.get_color(board_idx) == color {
+                res.push(one_to_2dim(self.size, board_idx));
             }
         }
         res.into_iter()
diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 44aa3633e5b4aaa83d50599289770f8541856124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 03/21] fix: board views cover exactly the intersections of the
 board

to_vec and matrix included the unused tail of the 19x19 storage on smaller
boards (so a board rebuilt from to_vec had the wrong size), and
get_empty_idx returned the occupied indices instead of the empty ones.
---
 src/pieces/goban.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 499af39..a5f59ba 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -74,6 +74,12 @@ impl Goban {
         self.size
     }
 
+    /// Number of intersections of the goban.
+    #[inline]
+    fn len(&self) -> usize {
+        self.size.0 as usize * self.size.1 as usize
+    }
+
     pub fn zobrist_hash(&self) -> u64 {
         self.zobrist_hash
     }
@@ -95,7 +101,7 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        self.board[..self.len()]
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +114,7 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        for line in self.board[..self.len()].chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
@@ -366,10 +372,10 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        self.board[..self.len()]
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter_map(|(idx, group)| if group.is_none() { Some(idx) } else { None })
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From 8b29fe1d2a772ec43b71c3992440a026d055437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 04/21] fix: panic on plays outside the board as documented

On boards smaller than 19x19 Game::play (and, without debug assertions,
Goban::push) silently put the stone on another intersection.
---
 src/pieces/goban.rs | 4 ++--
 src/rules/game.rs   | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index a5f59ba..2376a92 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -279,12 +279,12 @@ impl Goban {
     /// # Panics
     /// if the point is out of bounds
     pub fn push(&mut self, point: Coord, color: Color) -> &mut Self {
-        debug_assert!(
+        assert!(
             (point.0) < self.size.0,
             "Coordinate point.0 {} out of bounds",
             point.0
         );
-        debug_assert!(
+        assert!(
             (point.1) < self.size.1,
             "Coordinate point.1 {} out of bounds",
             point.1
diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..b2f9b98 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -180,6 +180,10 @@ impl Game {
                 self
             }
             Move::Play(x, y) => {
+                assert!(
+                    is_coord_valid(self.goban.size(), (x, y)),
+                    "The move ({x}, {y}) is outside the board"
+                );
                 //let hash = self.goban.zobrist_hash();
                 self.history.insert(self.goban.clone());
                 let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);
-- 
2.43.0


From f995d38bfa941d09ffa2688bea830b5359748ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 05/21] fix: refuse oversized custom boards instead of
 truncating their size

GobanSizes::Custom(275, 275) produced a 19x19 board.
---
 src/rules/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 9a0b8e1..5319e87 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -26,7 +26,10 @@ impl From<GobanSizes> for Size {
             GobanSizes::Nine => (9, 9),
             GobanSizes::Thirteen => (13, 13),
             GobanSizes::Nineteen => (19, 19),
-            GobanSizes::Custom(height, width) => (height as u8, width as u8),
+            GobanSizes::Custom(height, width) => (
+                height.try_into().expect("The board height is too large"),
+                width.try_into().expect("The board width is too large"),
+            ),
         }
     }
 }
-- 
2.43.0


From f95cde375021c160e7445c37bcc9cf7d40000d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 06/21] fix: reuse the slots of removed chains

The chain table only ever grew, so a board panicked once 65535 chains had
been created on it and its memory grew with the number of moves.
---
 src/pieces/group.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..d1b6f08 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,8 +214,16 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
-        self.0.push(Some(group));
-        self.0.len() - 1
+        match self.0.iter().position(Option::is_none) {
+            Some(free_spot) => {
+                self.0[free_spot] = Some(group);
+                free_spot
+            }
+            None => {
+                self.0.push(Some(group));
+                self.0.len() - 1
+            }
+        }
     }
 
     pub fn remove(&mut self, index: usize) {
-- 
2.43.0


From 6cd2f4ed318caba1a6b811ebc0791777687039b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 07/21] fix: only a play that retakes a single stone is a ko

A play on the ko point that captures nothing was labelled ko: with suicide
allowed a legal play was refused.
---
 src/rules/game.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index b2f9b98..6577394 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -404,12 +404,14 @@ impl Game {
     /// If the move captures more than 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
         self.ko_point == Some(stone.coord)
-            && !self
+            && self
                 .goban
                 .get_connected_groups(stone.coord)
                 .into_iter()
                 .any(|neighbor_go_string| {
-                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1
+                    neighbor_go_string.color != stone.color
+                        && neighbor_go_string.is_atari()
+                        && neighbor_go_string.num_stones == 1
                 })
     }
 
-- 
2.43.0


From a09d1ced886b605ffaa23f6e6cc78c4312fbce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 08/21] fix: play_for_verification removes suicides when they
 are allowed

The suicide flag was inverted with respect to play.
---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 6577394..7c80457 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -207,7 +207,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From 552df2d118227d3746bb12d6623dfd38851a3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 09/21] fix: detect every superko

Repeats closed by a play that captures nothing, by a self-capture, or within
the first moves of a set-up game were not seen.
---
 src/rules/game.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 7c80457..5051ca1 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -2,14 +2,15 @@ use crate::pieces::goban::*;
 use crate::pieces::stones::Color::{Black, White};
 use crate::pieces::stones::{Color, Stone, EMPTY};
 use crate::pieces::util::coord::{corner_points, is_coord_valid, two_to_1dim, Coord, Size};
+use crate::pieces::zobrist::index_zobrist;
 use crate::pieces::{Connections, Nat};
 use crate::rules::EndGame::{Draw, WinnerByScore};
 use crate::rules::Rule;
 use crate::rules::{EndGame, GobanSizes, IllegalRules, Move, ScoreRules};
 use crate::rules::{PlayError, CHINESE};
 use hash_hasher::{HashBuildHasher, HashHasher};
-use indexmap::IndexSet;
-use std::hash::BuildHasherDefault;
+use indexmap::{Equivalent, IndexSet};
+use std::hash::{BuildHasherDefault, Hash, Hasher};
 use std::ops::Deref;
 
 /// Most important struct of the library, it's the entry point.
@@ -417,15 +418,17 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
-            false
-        } else {
-            let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
+        if !self.will_capture(stone.coord) && !self.check_suicide(stone) {
+            // Nothing leaves the board, so the hash of the resulting position is known
+            // without simulating the move. Most moves lead to a hash never seen before.
+            let index = two_to_1dim(self.size(), stone.coord);
+            let hash = self.goban.zobrist_hash() ^ index_zobrist(index, self.turn);
+            if !self.history.contains(&PositionHash(hash)) {
+                return false;
+            }
         }
+        let to_check = self.play_for_verification(stone.coord);
+        to_check == self.goban || self.history.contains(&to_check)
     }
 
     /// Add a stone to the board and then test if the stone or stone group is dead.
@@ -468,6 +471,21 @@ impl Game {
     }
 }
 
+/// Finds the positions of the history having a zobrist hash.
+struct PositionHash(u64);
+
+impl Hash for PositionHash {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        state.write_u64(self.0);
+    }
+}
+
+impl Equivalent<Goban> for PositionHash {
+    fn equivalent(&self, goban: &Goban) -> bool {
+        self.0 == goban.zobrist_hash()
+    }
+}
+
 impl Default for Game {
     fn default() -> Self {
         Game::new(GobanSizes::Nineteen, CHINESE)
-- 
2.43.0


From 49c97d303597d9655328769253a86694ab095dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 10/21] fix: a player who resigns loses

Move::Resign(player) recorded the resigning player as the winner.
---
 src/rules/game.rs | 2 +-
 src/rules/mod.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 5051ca1..40ea113 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -196,7 +196,7 @@ impl Game {
                 self
             }
             Move::Resign(player) => {
-                self.outcome = Some(EndGame::WinnerByResign(player));
+                self.outcome = Some(EndGame::WinnerByResign(!player));
                 self
             }
         }
diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 5319e87..0004945 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -49,6 +49,7 @@ impl From<usize> for GobanSizes {
 #[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
 pub enum Move {
     Pass,
+    /// The given player resigns, the other one wins.
     Resign(Color),
     Play(Nat, Nat),
 }
-- 
2.43.0


From 32af15f01a583c4d8abf1f641e82171cc5ea809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 11/21] fix: dead stone simulations may end in a draw

A simulation with equal scores panicked.
---
 src/rules/dead_stones.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..68f2481 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -79,8 +79,8 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        let winner = child.outcome().and_then(|outcome| outcome.get_winner());
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From e21e2d57c620996aaed7b6b1fd458efc999ef4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 12/21] fix: get_floating_stones returns the chains that don't
 have two eyes

It returned positions in the list of chains instead of chain indexes (so
looking them up could panic), kept the chains with eyes instead of the
others, and needed three eyes to count two.
---
 src/pieces/goban.rs      | 6 ++++++
 src/rules/dead_stones.rs | 9 ++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 2376a92..329cab0 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -89,6 +89,12 @@ impl Goban {
         self.chains.iter()
     }
 
+    /// Indexes of the chains that are on the goban.
+    #[cfg(feature = "deadstones")]
+    pub(crate) fn chains_idx(&self) -> impl Iterator<Item = GroupIdx> + '_ {
+        self.chains.iter_with_index().map(|(idx, _chain)| idx)
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 68f2481..551279b 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -148,19 +148,18 @@ impl Game {
                 chains_wth_eye
                     .entry(chain_idx)
                     .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                    .or_insert(1);
             }
         }
-        let all_chains = self.goban.chains().enumerate();
         let string_with_2eyes = chains_wth_eye
             .into_iter()
             .filter(|(_, v)| *v >= 2)
             .map(|x| x.0)
             .collect::<HashSet<_>>();
 
-        all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
-            .map(|(idx, _chain)| idx)
+        self.goban
+            .chains_idx()
+            .filter(|idx| !string_with_2eyes.contains(idx))
             .collect()
     }
 
-- 
2.43.0


From b9af08be9d40989cf298dbe9fda0878f24db5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 13/21] fix: GameBuilder::build returns an error for games that
 cannot be built

Off-board or occupied points, oversized boards and a third pass made it
panic or corrupt the board instead of returning its Err.
---
 src/rules/game_builder.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index f8204fe..cb4e4f6 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -20,7 +20,7 @@
 
 use crate::pieces::goban::Goban;
 use crate::pieces::stones::{Color, Stone};
-use crate::pieces::util::coord::{Coord, Size};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::rules::game::Game;
 use crate::rules::{EndGame, Move, Rule, CHINESE};
 use std::mem::take;
@@ -97,16 +97,22 @@ impl GameBuilder {
     }
 
     fn build_inner(mut self) -> Result<Game, String> {
+        let (height, width) = self.size;
+        if !(1..=19).contains(&height) || !(1..=19).contains(&width) {
+            return Err(format!("The board size {height}x{width} is not supported"));
+        }
         let mut goban: Goban = Goban::new(self.size);
 
         let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);
 
         for point in self.handicap_points {
+            check_empty_point(&goban, point)?;
             goban.push(point, Color::Black);
         }
 
         // Setup
         for s in self.setup {
+            check_empty_point(&goban, s.coord)?;
             goban.push_stone(s);
         }
 
@@ -136,6 +142,11 @@ impl GameBuilder {
 
         // Moves to play
         for &m in &self.moves {
+            match m {
+                Move::Play(x, y) => check_empty_point(&g.goban, (x, y))?,
+                Move::Pass if g.passes >= 2 => return Err("The game is already paused".to_string()),
+                _ => (),
+            }
             g.play(m);
         }
 
@@ -149,6 +160,17 @@ impl GameBuilder {
     }
 }
 
+/// Checks that a stone can be put on the point.
+fn check_empty_point(goban: &Goban, point: Coord) -> Result<(), String> {
+    if !is_coord_valid(goban.size(), point) {
+        Err(format!("The point {point:?} is outside the board"))
+    } else if goban.get_color(point).is_some() {
+        Err(format!("The point {point:?} is not empty"))
+    } else {
+        Ok(())
+    }
+}
+
 impl Default for GameBuilder {
     fn default() -> Self {
         GameBuilder {
-- 
2.43.0


From 71a5299bb88cdd6fb17e54772cdea13b1d4eb46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 14/21] fix: read SGF board sizes as columns:rows

The height and width of rectangular records were exchanged, and sizes over
255 were truncated.
---
 src/rules/sgf_bridge.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..ec0f7ea 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,11 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            // SGF sizes are columns:rows
+                            match ((*y).try_into(), (*x).try_into()) {
+                                (Ok(height), Ok(width)) => game_builder.size((height, width)),
+                                _ => return Err(format!("The board size {x}:{y} is not supported")),
+                            };
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From 14144cdaf7ec408b2f2954d593adedf9bf1e901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 15/21] fix: from_sgf returns an error instead of panicking

Unsupported rule sets, other games, unknown players to play and coordinates
below the first line panicked.
---
 src/rules/sgf_bridge.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index ec0f7ea..3d78d75 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -42,7 +42,7 @@ impl Game {
                             coordinate: (x, y),
                         } => {
                             game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
+                                coord: (y.wrapping_sub(1) as Nat, x.wrapping_sub(1) as Nat),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
                                     SgfColor::White => Color::White,
@@ -50,13 +50,19 @@ impl Game {
                             });
                         }
                         SgfToken::Rule(rule) => {
+                            if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese) {
+                                let rule = rule.to_string();
+                                return Err(format!("The rule {rule} is not implemented yet !"));
+                            }
                             game_builder.rule(rule.clone().into());
                         }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err("The record is not a game of Go".to_string());
+                            }
                         }
 
                         //TODO another options
@@ -72,7 +78,7 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    _ => return Err(format!("Unknown player to play: {value}")),
                                 }
                             }
                         }
@@ -125,7 +131,9 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
-            Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
+            Action::Move(col, line) => {
+                Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat)
+            }
             Action::Pass => Move::Pass,
         }
     }
-- 
2.43.0


From 1692a2c12f1c0bf2f1d85e97e42e2677c0ab8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 16/21] fix: read the SGF move tt as a pass

---
 src/rules/sgf_bridge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 3d78d75..79a8762 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -131,6 +131,8 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
+            // On boards up to 19x19, tt is a pass.
+            Action::Move(20, 20) => Move::Pass,
             Action::Move(col, line) => {
                 Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat)
             }
-- 
2.43.0


From b9463b00b867fef3829d75f9a62f371eefc9e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 17/21] fix: import SGF moves wherever they stand in their node

A move after a comment or another property, or in the root node, was
dropped.
---
 src/rules/sgf_bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 79a8762..3d331ab 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -85,8 +85,8 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
+            }
+            for token in &node.tokens {
                 if let SgfToken::Move { action, .. } = token {
                     moves.push((*action).into());
                 }
-- 
2.43.0


From e5e0fe6a1f754d4be7c330ced8f22f1fdc1539e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 18/21] fix: play SGF moves in their recorded colours

The colours of the moves were ignored, so records where White starts
without PL or one player moves twice in a row gave a wrong board.
---
 src/rules/game_builder.rs | 15 ++++++++++++---
 src/rules/sgf_bridge.rs   |  6 +++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index cb4e4f6..9609b6c 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -34,14 +34,20 @@ pub struct GameBuilder {
     handicap: Option<u32>,
     handicap_points: Vec<Coord>,
     turn: Option<Color>,
-    moves: Vec<Move>,
+    /// The moves with the player making them, None for the player whose turn it is.
+    moves: Vec<(Option<Color>, Move)>,
     outcome: Option<EndGame>,
     setup: Vec<Stone>,
 }
 
 impl GameBuilder {
     pub fn moves(&mut self, moves: &[Move]) -> &mut Self {
-        self.moves = moves.to_vec();
+        self.moves = moves.iter().map(|&m| (None, m)).collect();
+        self
+    }
+
+    pub(super) fn colored_moves(&mut self, moves: Vec<(Option<Color>, Move)>) -> &mut Self {
+        self.moves = moves;
         self
     }
 
@@ -141,7 +147,10 @@ impl GameBuilder {
         };
 
         // Moves to play
-        for &m in &self.moves {
+        for &(player, m) in &self.moves {
+            if let Some(player) = player {
+                g.turn = player;
+            }
             match m {
                 Move::Play(x, y) => check_empty_point(&g.goban, (x, y))?,
                 Move::Pass if g.passes >= 2 => return Err("The game is already paused".to_string()),
diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 3d331ab..60f3a73 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -87,12 +87,12 @@ impl Game {
                 first = false;
             }
             for token in &node.tokens {
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
+                if let SgfToken::Move { color, action } = token {
+                    moves.push((Some((*color).into()), (*action).into()));
                 }
             }
         }
-        game_builder.moves(&moves);
+        game_builder.colored_moves(moves);
         game_builder.build()
     }
 }
-- 
2.43.0


From 46b3434bdfcd96999275273fe6ce794cbd1a0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 19/21] fix: refuse SGF records whose board size cannot be read

A size such as SZ[12:4294967305] was ignored and the record imported on
the default 19x19 board.
---
 src/rules/sgf_bridge.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 60f3a73..b525e43 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -34,6 +34,9 @@ impl Game {
                                 _ => return Err(format!("The board size {x}:{y} is not supported")),
                             };
                         }
+                        SgfToken::Invalid((key, value)) if key == "SZ" => {
+                            return Err(format!("The board size {value} is not supported"));
+                        }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
                         }
-- 
2.43.0


From a91795c74849e1d520a9f39d3f98d4149bffb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 20/21] fix: dead stone simulations always come to an end

---
 src/rules/dead_stones.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 551279b..3e549d2 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -88,6 +88,13 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 }
 
+/// Without superko (or when suicides are permitted) the plays can cycle forever, so the
+/// simulations give up after this number of plays.
+fn max_plays(game: &Game) -> usize {
+    let (height, width) = game.size();
+    10 * height as usize * width as usize
+}
+
 struct PL;
 
 impl Playout<Game> for PL {
@@ -111,7 +118,10 @@ impl Playout<Game> for PL {
             Move::Pass
         }
         let mut thread_rng = rng();
-        while !state.is_over() {
+        for _ in 0..max_plays(&state) {
+            if state.is_over() {
+                break;
+            }
             state.play(fast_play_random(&state, &mut thread_rng));
         }
         state
@@ -166,7 +176,10 @@ impl Game {
     pub fn dead_stones_wth_simulations(&self, nb_simulations: usize) -> HashSet<GroupIdx> {
         let mut game = self.clone();
         let floating_stones = self.get_floating_stones();
-        while !game.is_over() {
+        for _ in 0..max_plays(self) {
+            if game.is_over() {
+                break;
+            }
             let m = {
                 let mut mcts = Mcts::with_capacity(&game, nb_simulations);
                 for _ in 0..nb_simulations {
-- 
2.43.0


From d52111d18757be88b706fe5fc71822f260e80505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 21/21] fix: the length of a chain's iterator follows its
 progress

---
 src/pieces/group.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index d1b6f08..9af9199 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -266,6 +266,9 @@ impl Iterator for CircularGroupIter<'_> {
             panic!("infinite loop detected")
         }
 
+        if ret.is_some() {
+            self.num_stones = self.num_stones.saturating_sub(1);
+        }
         ret
     }
 
-- 
2.43.0

