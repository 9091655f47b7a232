From 1ac47a224cace846aaf11d1b781384e9119d828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:50 +0000
Subject: [PATCH 01/14] fix: TemperatureCache must not panic for input hues at
 or above 359.5

hcts_by_hue is indexed with hue.round(), which is 360 for hues in
[359.5, 360); the list covers hue 0 to 360 inclusive, as upstream.
---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From d87824a14d21d86701cebbbed5e146a4fb24ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:50 +0000
Subject: [PATCH 02/14] fix: QuantizerCelebi must give the same result every
 time for the same image

---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..8d447ae 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // k-means depends on the order of its starting clusters; the iteration
+        // order of a HashMap differs from call to call.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From fb58a9d9c3c5610db83698098a972f28c11eb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:50 +0000
Subject: [PATCH 03/14] fix: QuantizerWsmeans must not lose the population of
 clusters that share a color

---
 src/quantize/quantizer_wsmeans.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wsmeans.rs b/src/quantize/quantizer_wsmeans.rs
index 16f8cdc..e3fd993 100644
--- a/src/quantize/quantizer_wsmeans.rs
+++ b/src/quantize/quantizer_wsmeans.rs
@@ -262,7 +262,11 @@ impl QuantizerWsmeans {
 
             let possible_new_cluster =
                 point_provider.to_int(&clusters[i as usize].iter().map(|it| *it).collect());
-            if cluster_argbs.contains(&possible_new_cluster) {
+            if let Some(index) = cluster_argbs
+                .iter()
+                .position(|argb| *argb == possible_new_cluster)
+            {
+                cluster_populations[index] += count;
                 continue;
             }
 
-- 
2.43.0


From 371881260d021f439a3fb44366bf9f2e7634f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 04/14] fix: QuantizerWu must retry a slot whose box could not
 be cut

`i -= 1` on the variable of a Rust for loop does not rewind the loop, so
every failed cut wasted one of the requested colors.
---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..b1873f1 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0


From e337c7cfcb389ef6444ec25b2743923f4bf9854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 05/14] fix: QuantizerWu must round the mean color of a box

Integer division truncated the mean before it was rounded.
---
 src/quantize/quantizer_wu.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1873f1..cf23e02 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -193,11 +193,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
-- 
2.43.0


From 5f7fee165592349343a1549e08ede12341923225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 06/14] fix: QuantizerWu must not overflow on large images

The squared moments of an image with more than about 7 million bright
pixels do not fit an i64; the variance was also truncated by an integer
division.
---
 src/quantize/quantizer_wu.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index cf23e02..4b7fe71 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -210,9 +210,9 @@ impl QuantizerWu {
     }
 
     pub fn variance(&self, cube: Box) -> f64 {
-        let dr = Self::volume(cube.clone(), self.moments_r.clone());
-        let dg = Self::volume(cube.clone(), self.moments_g.clone());
-        let db = Self::volume(cube.clone(), self.moments_b.clone());
+        let dr = Self::volume(cube.clone(), self.moments_r.clone()) as f64;
+        let dg = Self::volume(cube.clone(), self.moments_g.clone()) as f64;
+        let db = Self::volume(cube.clone(), self.moments_b.clone()) as f64;
         let xx = self.moments[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - self.moments[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
             - self.moments[Self::get_index(cube.r1, cube.g0, cube.b1) as usize]
@@ -224,7 +224,7 @@ impl QuantizerWu {
 
         let hypotenuse = dr * dr + dg * dg + db * db;
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - (hypotenuse / volume_) as f64;
+        return xx - hypotenuse / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
@@ -346,8 +346,7 @@ impl QuantizerWu {
                 continue;
             }
 
-            let mut temp_numerator: f64 =
-                ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            let mut temp_numerator: f64 = Self::sum_of_squares(half_r, half_g, half_b);
             let mut temp_denominator: f64 = half_w as f64;
             let mut temp: f64 = temp_numerator / temp_denominator;
 
@@ -358,7 +357,7 @@ impl QuantizerWu {
             if half_w == 0 {
                 continue;
             }
-            temp_numerator = ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            temp_numerator = Self::sum_of_squares(half_r, half_g, half_b);
             temp_denominator = half_w as f64;
             temp += temp_numerator / temp_denominator;
 
@@ -370,6 +369,13 @@ impl QuantizerWu {
         return MaximizeResult::new(cut, max);
     }
 
+    // In floating point: the square of a moment overflows an integer for images
+    // of a few million pixels.
+    fn sum_of_squares(r: i64, g: i64, b: i64) -> f64 {
+        let (r, g, b) = (r as f64, g as f64, b as f64);
+        return (r * r) + (g * g) + (b * b);
+    }
+
     pub fn volume(cube: Box, moment: Vec<i64>) -> i64 {
         return moment[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - moment[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
-- 
2.43.0


From 7d648f47a67a654a64400aede8829797724979aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 07/14] fix: TonalPalette::get_hct must not answer a fractional
 tone from the cache

of(120, 40).get_hct(10.7) gave another color once get(10) had been called.
---
 src/palettes/tonal_palette.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..37525ad 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,13 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // Only whole tones are cached: a tone in between is not the color of the
+        // whole tone below it.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From 6183f6a0ef704d911338580b7ec7839bef8aae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 08/14] fix: TonalPalette::to_string must name the constructor
 that was used

---
 src/palettes/tonal_palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 37525ad..4fb268b 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -199,7 +199,7 @@ impl TonalPalette {
 impl ToString for TonalPalette {
     fn to_string(&self) -> String {
         let mut mutable_clone = self.clone();
-        if self._is_from_cache {
+        if !self._is_from_cache {
             return format!(
                 "TonalPalette.of({}, {})",
                 mutable_clone.hue, mutable_clone.chroma
-- 
2.43.0


From 062b2880ff4d67ee05e6e5c6d72b08f35557da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 09/14] fix: MathUtils::sanitize_degrees_double must stay below
 360 for tiny negative angles

---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..0efa4f1 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -69,6 +69,10 @@ impl MathUtils {
         let mut degrees = degrees % 360.0;
         if degrees < 0.0 {
             degrees = degrees + 360.0;
+            // A tiny negative angle plus 360 rounds to 360.
+            if degrees >= 360.0 {
+                degrees = 0.0;
+            }
         }
         return degrees;
     }
-- 
2.43.0


From 7ad0e993c8f6f5f46f6ec12744924a648a65fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 10/14] fix: Score must not rank by NaN when no color has a
 population

All scores were NaN, the filter was skipped, and the answer depended on
the iteration order of the HashMap.
---
 src/score/score.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index d0343d9..7e1bcf7 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -103,7 +103,12 @@ impl Score {
         let mut hue_excited_proportions = [0.0; 360];
         let mut hue: i64 = 0;
         while hue < 360 {
-            let proportion = (hue_population[hue as usize] as f64) / (population_sum as f64);
+            // Without any population (0 / 0), no hue is used more than another.
+            let proportion = if population_sum == 0 {
+                0.0
+            } else {
+                (hue_population[hue as usize] as f64) / (population_sum as f64)
+            };
             let mut i: i64 = hue - 14;
             while i < hue + 16 {
                 let neighbor_hue = MathUtils::sanitize_degrees_int(i);
-- 
2.43.0


From 5b7a9e807c5eff6f046e7a8594afb8f23658c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 11/14] fix: Score must give the same answer every time for
 colors with equal scores

---
 src/score/score.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index 7e1bcf7..02932bd 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -89,7 +89,10 @@ impl Score {
         let mut colors_hct: Vec<Hct> = Vec::new();
         let mut hue_population = [0; 360]; //List<int>.filled(360, 0);
         let mut population_sum = 0;
-        for (key, value) in colors_to_population {
+        // In a fixed order, so that colors with equal scores always rank the same.
+        let mut sorted_colors: Vec<(&i64, &i64)> = colors_to_population.iter().collect();
+        sorted_colors.sort();
+        for (key, value) in sorted_colors {
             let argb = key;
             let population = value;
             let hct = Hct::from_int(*argb);
-- 
2.43.0


From ba7c7b589fd0fb6160e750bc873d6934f6ff7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 12/14] fix: get_rotated_hue must rotate a hue that lies on a
 breakpoint

Black has hue 0 exactly, which is the first breakpoint of every table,
and was left without rotation.
---
 src/dynamiccolor/dynamic_scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..376f2fc 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -124,7 +124,7 @@ impl DynamicScheme {
         while i <= (size - 2) {
             let this_hue = hues[i as usize];
             let next_hue = hues[i as usize + 1];
-            if this_hue < source_hue && source_hue < next_hue {
+            if this_hue <= source_hue && source_hue < next_hue {
                 return MathUtils::sanitize_degrees_double(source_hue + rotations[i as usize]);
             }
             i += 1;
-- 
2.43.0


From 003b6062816a4cff828b295d10530b53513f905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 13/14] fix: equal palettes and schemes must hash alike when a
 component is -0.0

---
 src/dynamiccolor/dynamic_scheme.rs | 3 ++-
 src/palettes/tonal_palette.rs      | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 376f2fc..1ac8002 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,7 +76,8 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        // 0.0 and -0.0 are equal, so they must hash alike.
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 4fb268b..930c705 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -228,8 +228,9 @@ impl PartialEq for TonalPalette {
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
         if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
+            // 0.0 and -0.0 are equal, so they must hash alike.
+            (self.hue + 0.0).to_ne_bytes().hash(state);
+            (self.chroma + 0.0).to_ne_bytes().hash(state);
         } else {
             let list = self.clone().get_as_list();
             hash_vec_i64(&list, state);
-- 
2.43.0


From 6fccb89d531c0f17f1ee5041b045bc80d7730308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:14 +0000
Subject: [PATCH 14/14] fix: reject a sign in hex text of a color

---
 src/utils/string_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/string_utils.rs b/src/utils/string_utils.rs
index 2de1925..00b082a 100644
--- a/src/utils/string_utils.rs
+++ b/src/utils/string_utils.rs
@@ -25,6 +25,11 @@ impl StringUtils {
     }
 
     pub fn argb_from_hex(hex: String) -> Option<i64> {
-        return i64::from_str_radix(hex.trim_start_matches("#"), 16).ok();
+        let digits = hex.trim_start_matches("#");
+        // from_str_radix would accept a sign.
+        if !digits.chars().all(|c| c.is_ascii_hexdigit()) {
+            return None;
+        }
+        return i64::from_str_radix(digits, 16).ok();
     }
 }
-- 
2.43.0

