From 4bea1a7e49ac3908135010809f8717781c4fa9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 01/31] fix: canonical pon code must not depend on which plain
 copy was called

---
 MahjongAI/draw.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..e2e6e57 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -85,12 +85,14 @@ class Naki(Draw):
         return code
 
     def _clean_pon(self):
-        _, _, which, red, *_ = self.pattern_pon()
+        _, _, which, red, _, acquired = self.pattern_pon()
         code = self.naki_code & ~(0x60)
+        # which copy was called only matters when the red five is in the hand
+        code -= which << 9
         if red:
             code += 0x60
-            if which:
-                code -= (which - 1) << 9
+            if acquired % 4 != 0:
+                code += 1 << 9
         return code
 
     def _clean_kakan(self):
-- 
2.43.0


From 4451b250578274fc3d0c7b742efdf9a2a5c2315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 02/31] fix: canonical added-kan code must not depend on the
 original pon

---
 MahjongAI/draw.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index e2e6e57..3ef7b04 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -96,9 +96,14 @@ class Naki(Draw):
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
-        if not red or which:
+        _, _, which, red, exposed, _ = self.pattern_kakan()
+        # the direction and called copy of the original pon do not matter
+        code = self.naki_code & ~(0x60 | 0x3)
+        code -= which << 9
+        had_red = red and exposed[0] % 4 != 0
+        if had_red:
+            code += 1 << 9
+        if not red or had_red:
             code |= 0x20
         return code
 
-- 
2.43.0


From ae323477651171f850d8c0bd16e749f8c3fe746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 03/31] fix: red chi action numbers collided and ran into the
 pon range

---
 MahjongAI/draw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 3ef7b04..a1892cb 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -251,9 +251,10 @@ class Naki(Draw):
         if self.is_chi():
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
-                return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
-                )
+                # the red five is one of the two hand tiles: number is 2..4, two
+                # called positions each
+                position = which - (which > 4 - number)
+                return CHI_START + 63 + 6 * color + (number - 2) * 2 + position
             else:
                 return CHI_START + color * 21 + number * 3 + which
 
-- 
2.43.0


From d07500b64b71796255860cdc2524894b9adf8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 04/31] fix: pon spending the red five from the hand shared the
 plain pon number

---
 MahjongAI/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index a1892cb..c192d5f 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -262,7 +262,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From 818d66f5119186abf5360b82007d5c33cb350ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 05/31] fix: discard tokens carried the event kind of a call

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..e0a6ccf 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -595,7 +595,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From 96075acfb93b5a288f7e48efa853ad776e30b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 06/31] fix: open-kan options marked the called tile the wrong
 way round

---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..f00757a 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -263,7 +263,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -317,7 +317,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -336,7 +336,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 34dcaf788ec591eace05fa29770695ddd1e2ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 07/31] fix: pon was not offered to a hand holding three of the
 tile

---
 MahjongAI/decision.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index f00757a..2bc55f3 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -257,7 +257,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -331,7 +331,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From 2bce383d0618fa6d3f4fdcca7d9c7bca88acf015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 08/31] fix: pon options on a five missed or misnamed the red
 five

---
 MahjongAI/decision.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 2bc55f3..3c7ee13 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -299,22 +299,14 @@ def _five_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
-                assert naki.is_pon()
-                decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
-                naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
-                assert naki.is_pon()
-                decisions[p].append(NakiDecision(p, naki, False))
-        else:
-            if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
-                assert naki.is_pon()
-                decisions[p].append(NakiDecision(p, naki, False))
+        if black_fives >= 2.0:
+            naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
+            assert naki.is_pon()
+            decisions[p].append(NakiDecision(p, naki, False))
+        if player_has_red and black_fives >= 1.0:
+            naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
+            assert naki.is_pon()
+            decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
             naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
-- 
2.43.0


From 21b94fadecd3f826a66f5b68e52ec6a8968fc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 09/31] fix: chi options counted the wrong kind when looking
 for plain fives

---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 3c7ee13..48e1a18 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
-- 
2.43.0


From 72e389c40a97cdf866002d5fcc6de5bf60313f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 10/31] fix: chi with a closed wait around a four or six named
 an end tile as the called one

---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 48e1a18..e0dbe1c 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -218,7 +218,7 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
@@ -226,7 +226,7 @@ def _four_and_six_mask(
                         naki = Naki.from_chi_info(
                             tile_idx // 9,
                             2 if is_four else 4,
-                            0 if is_four else 2,
+                            1,
                             False,
                         )
                         assert naki.is_chi()
-- 
2.43.0


From dfd9bc2b1d0d6aa7391c2694c611e174e55d9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 11/31] fix: event embeddings were masked the wrong way round
 in three models

---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..7c96857 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..e01f769 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..c38cb62 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From efded8a79a3ee23a1e7fae8a4e582069ca406467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 12/31] fix: a passed turn decision was labelled with a loop
 counter

---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 7c96857..9cd6b5e 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            executed_idx = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        executed_idx = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        executed_idx = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            executed_idx = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(executed_idx)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index e01f769..23929d9 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            executed_idx = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        executed_idx = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        executed_idx = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            executed_idx = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(executed_idx)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index c38cb62..4a6c454 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            executed_idx = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        executed_idx = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        executed_idx = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            executed_idx = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(executed_idx)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..a45fad0 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            executed_idx = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        executed_idx = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        executed_idx = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            executed_idx = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(executed_idx)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From ca8b91c9832d39d831a00689da49503ff3f3891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 13/31] fix: a red five turned up as dora indicator stayed
 among the unseen red fives

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e0a6ccf..cdce1f2 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,13 +124,13 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
                 remaining_tsumo -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From 2266f62123b0922bddfce314ab00be8403ee5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 14/31] fix: kans and new dora indicators were counted as draws

---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index cdce1f2..fb9b32b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From 0ba86e3a01d15d77945b1112bdb3e63c4595182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 15/31] fix: any draw ended every player's ippatsu

---
 MahjongAI/process_xml.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index fb9b32b..40dded7 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -411,8 +411,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
-- 
2.43.0


From 70df1bd55c0fe3c96e8c4022a179a0316958b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 16/31] fix: the state after a call still showed ippatsu

---
 MahjongAI/process_xml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 40dded7..9018d62 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -216,6 +216,11 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.from_who() != 0:
+                    is_menzen[player] = 0
+                if sum(ippatsu):
+                    ippatsu = [0] * 4
+
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
                     hand_tensor=hand_tensors[player],
@@ -238,11 +243,6 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
-                if naki.from_who() != 0:
-                    is_menzen[player] = 0
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
-
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
                     # remove corresponding pon from melds
-- 
2.43.0


From 3619013c713fa84ffe3470929793ca902bfa1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 17/31] fix: recorded states kept changing with the live hand,
 unseen tiles and melds

---
 MahjongAI/process_xml.py | 17 +++++++++--------
 MahjongAI/state.py       | 10 +++++-----
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 9018d62..734efcc 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -216,6 +216,15 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.is_kakan():
+                    # remove corresponding pon from melds
+                    for i, meld in enumerate(melds[player]):
+                        if meld.is_pon():
+                            color, number, *_ = meld.pattern_pon()
+                            if color * 9 + number == exposed[0] // 4:
+                                melds[player].pop(i)
+                                break
+
                 if naki.from_who() != 0:
                     is_menzen[player] = 0
                 if sum(ippatsu):
@@ -245,14 +254,6 @@ def process(file_path: str, verbose: bool = False):
 
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
-                    # remove corresponding pon from melds
-                    for i, meld in enumerate(melds[player]):
-                        if meld.is_pon():
-                            color, number, *_ = meld.pattern_pon()
-                            if color * 9 + number == exposed[0] // 4:
-                                melds[player].pop(i)
-                                break
-
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
diff --git a/MahjongAI/state.py b/MahjongAI/state.py
index bd095df..299f9e9 100644
--- a/MahjongAI/state.py
+++ b/MahjongAI/state.py
@@ -28,15 +28,15 @@ class StateObject:
         player: int
     ):
         self.remaining_turns = remaining_turns
-        self.hand_tensor = hand_tensor
-        self.remaining_tiles = remaining_tiles
-        self.remaining_tiles_pov = remaining_tiles_pov
+        self.hand_tensor = np.copy(hand_tensor)
+        self.remaining_tiles = np.copy(remaining_tiles)
+        self.remaining_tiles_pov = np.copy(remaining_tiles_pov)
         self.sutehai_tensors = sutehai_tensors
-        self.is_menzen = is_menzen
+        self.is_menzen = is_menzen[:]
         self.double_reaches = double_reaches
         self.reaches = reaches
         self.ippatsu = ippatsu
-        self.melds = melds
+        self.melds = [m[:] for m in melds]
         self.scores = scores
         self.kyotaku = kyotaku
         self.honba = honba
-- 
2.43.0


From 441cf6a441f4fc23ec00eb8711b6f95615e89566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 18/31] fix: added kans were looked up at the wrong tile and in
 a form no log shows

---
 MahjongAI/process_xml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 734efcc..5adc431 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -364,13 +364,15 @@ def process(file_path: str, verbose: bool = False):
                 for meld in melds[player]:
                     if meld.is_pon():
                         color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        kind = 9 * color + number
+                        if hand_tensors[player][kind] == 1.0:
+                            # on a five it only matters whether the red one is added
+                            is_five = kind < 27 and number == 4
+                            which = int(is_five and hands[player, 4 * kind] == 0.0)
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
-                                    Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                    Naki.from_kakan_info(kind, which),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 3d5de97aa61aa178c1b0a5cbd0e400c734f9d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 19/31] fix: the history of a reaction left out the discard
 reacted to

---
 MahjongAI/process_xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5adc431..2329700 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -488,6 +488,10 @@ def process(file_path: str, verbose: bool = False):
                         continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 half_turn = PostTurn(
                     player=player,
                     stateObj=stateObj,
@@ -496,10 +500,6 @@ def process(file_path: str, verbose: bool = False):
                 )
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
-
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From 081a0fe34909a0df837b473adc2a50181b1b7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 20/31] fix: a call did not reliably end the first go-around

---
 MahjongAI/process_xml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 2329700..d1940d5 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -165,8 +165,7 @@ def process(file_path: str, verbose: bool = False):
 
                 naki = Naki(int(event["attr"]["m"]))
                 player = int(event["attr"]["who"])
-                from_who = naki.from_who()
-                cycles += (player - from_who) % 4
+                cycles += 4  # a call ends the first go-around
                 melds[player] = melds[player][:] + [naki]
 
                 encoding_tokens.append(naki2idx(player, naki))
-- 
2.43.0


From a5143a952974e5ff95663c27f2d89381d267077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 21/31] fix: renhou was judged by the discarder's seat number

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d1940d5..1d10cf9 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -464,8 +464,8 @@ def process(file_path: str, verbose: bool = False):
                     is_haitei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
                     is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
+                        (cycles <= 3 and (p - int(parent)) % 4 >= cycles)
+                        for p in range(4)
                     ],
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
-- 
2.43.0


From 15da44bd190290d686e691f9bd76c960bff8aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 22/31] fix: a win on the tile drawn after a kan was not judged
 as such

---
 MahjongAI/process_xml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1d10cf9..22cdbf4 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -106,6 +106,7 @@ def process(file_path: str, verbose: bool = False):
         is_menzen = [1] * 4
         curr_halfturn = None
         cycles = 0
+        after_kan = False
         acquired = None
         result_idx = None
 
@@ -298,6 +299,7 @@ def process(file_path: str, verbose: bool = False):
 
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
+                    after_kan = True
                     acquired = None
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
@@ -331,8 +333,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not after_kan),
+                    is_rinshan=after_kan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
@@ -342,6 +344,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                after_kan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if not reaches[player] and is_menzen[player]:
-- 
2.43.0


From c899332bb80e6caf6478c93c017fa5dc0e356dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 23/31] fix: no ron was ever accepted on the last discard

---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..085f6f5 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -124,8 +124,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_wind,
-- 
2.43.0


From 6bd3dd7243e0febc0263415d0ba6aa9ef263edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 24/31] fix: seat and round winds were not passed as the
 calculator's wind tiles

---
 MahjongAI/utils/agari.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 085f6f5..3fbf5f7 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -128,8 +128,8 @@ def evaluate_ron(
             is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
-            round_wind=round_wind,
+            player_wind=27 + (p - player_wind) % 4,
+            round_wind=27 + round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
             options=OPTIONS,
@@ -235,8 +235,8 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
-        round_wind=round_wind,
+        player_wind=27 + (player - player_wind) % 4,
+        round_wind=27 + round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
         options=OPTIONS,
-- 
2.43.0


From 4f388ed75f65c0b6acb27b2d7ef1e5aa07b1c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 25/31] fix: a hand using all four fives was turned into
 another hand

---
 MahjongAI/utils/agari.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 3fbf5f7..28dd93f 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -69,9 +69,9 @@ def evaluate_ron(
                 print(f"Player {p} is furiten")
             continue
 
-        hand_tensor[discarded_tile_idx] += 1
+        hand_tensor[TILE2IDX[discarded_tile]] += 1
         man, pin, sou, honors = hand_tensor2strs(hand_tensor)
-        hand_tensor[discarded_tile_idx] -= 1
+        hand_tensor[TILE2IDX[discarded_tile]] -= 1
 
         tiles = TilesConverter.string_to_136_array(
             man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
@@ -266,6 +266,8 @@ def hand_tensor2strs(hand_tensor):
         lst = []
         for j in range(9):
             lst += [j + 1] * int(hand_tensor[i + j])
+        if hand_tensor[34 + i // 9]:
+            lst[lst.index(5)] = 0  # the red five
         tile_strs.append("".join(list(map(str, lst))))
 
     lst = []
-- 
2.43.0


From e93c76f2760bc08339b079e872182b246a388c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 26/31] fix: wins were missed when another copy of the winning
 tile was listed

---
 MahjongAI/utils/agari.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 28dd93f..060816c 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -138,7 +138,8 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            # the copies in the hand are interchangeable
+            win_tile=next(t for t in tiles if t // 4 == discarded_tile // 4),
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -244,7 +245,8 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        # the copies in the hand are interchangeable
+        win_tile=next(t for t in tiles if t // 4 == tsumo_tile // 4),
         melds=melds,
         dora_indicators=doras,
         config=config,
-- 
2.43.0


From fed1d1f8c33556afb398d4ec101af88f0f6b1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 27/31] fix: one malformed log ended the whole training process

---
 MahjongAI/utils/dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..ed6c462 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -39,7 +38,7 @@ class DataLoader:
                 continue  # Skip to the next file
             except AssertionError as e:
                 print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
+                continue
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From d889774ab3b6bf418a6a455a516d3f0be07a0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 28/31] fix: a pass ending in unusable logs delivered an empty
 batch

---
 MahjongAI/utils/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index ed6c462..0697169 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -47,6 +47,9 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        if not all_halfturns_list:
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From 554c2dabf0dcf7250e62df542f29b52948bad5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 29/31] fix: the red five of characters counted as a terminal
 or honour

---
 MahjongAI/utils/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/constants.py b/MahjongAI/utils/constants.py
index 52381ca..0b10960 100644
--- a/MahjongAI/utils/constants.py
+++ b/MahjongAI/utils/constants.py
@@ -17,7 +17,7 @@ MAX_SEQUENCE_LENGTH = 150
 
 
 YAOCHU_TENSOR = np.zeros(37)
-YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33, 34]] = 1.0
+YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]] = 1.0
 
 
 DECISION_AGARI_IDX = 0
-- 
2.43.0


From 54014cad68d7f3ba111a49889380add0cfcbd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 30/31] fix: thirteen-orphans distance was off without a pair
 or with a triplet

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..aac150b 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -137,7 +137,7 @@ class ShantenSolver:
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - int(max(yaochu_arr) >= 2.0)
         )
 
     def solve(self):
-- 
2.43.0


From ded0f786a45917e18c516b69666338c96d486eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 31/31] fix: files merely containing a checkpoint name were
 taken for checkpoints

---
 MahjongAI/supervised_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..4e86c0f 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -40,7 +40,7 @@ def find_latest_checkpoint(model_name: str, checkpoint_dir: str) -> Tuple[int, s
     regex = rf"model_{re.escape(model_name)}_checkpoint_iter_(\d+)\.pt"
 
     for file in checkpoint_files:
-        match = re.search(regex, file)
+        match = re.fullmatch(regex, os.path.basename(file))
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0

