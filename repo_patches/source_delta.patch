From 6ea030e7e429e092e194107f2b6dbe6e0e7e599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 01/29] fix: slice WAD mip levels by offset and length instead
 of panicking for mip_levels > 1

---
 Cargo.lock     | 295 +++++++++++--------------------------------------
 src/wad/mod.rs |   6 +-
 2 files changed, 69 insertions(+), 232 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 50754c0..06113b0 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,36 +1,12 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-[[package]]
-name = "alga"
-version = "0.9.3"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "4f823d037a7ec6ea2197046bafd4ae150e6bc36f9ca347404f46a46823fa84f2"
-dependencies = [
- "approx",
- "num-complex",
- "num-traits",
-]
+version = 4
 
 [[package]]
-name = "approx"
-version = "0.3.2"
+name = "arrayvec"
+version = "0.5.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "f0e60b75072ecd4168020818c0107f2857bb6c4e64252d8d3983f6263b40a5c3"
-dependencies = [
- "num-traits",
-]
-
-[[package]]
-name = "autocfg"
-version = "0.1.7"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "1d49d90015b3c36167a20fe2810c5cd875ad504b39cff3d4eae7977e6b7c1cb2"
-
-[[package]]
-name = "autocfg"
-version = "1.0.0"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "f8aac770f1885fd7e387acedd76065302551364496e46b3dd00860b2f8359b9d"
+checksum = "23b62fc65de8e4e7f52534fb52b0f3ed04746ae267519eef2a83941e8085068b"
 
 [[package]]
 name = "bitflags"
@@ -39,260 +15,121 @@ source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "cf1de2fe8c75bc145a2f577add951f8134889b4795d47466a54a5c846d691693"
 
 [[package]]
-name = "cloudabi"
-version = "0.0.3"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "ddfc5b9aa5d4507acaf872de71051dfd0e309860e88966e1051e462a077aac4f"
-dependencies = [
- "bitflags",
-]
-
-[[package]]
-name = "fuchsia-cprng"
-version = "0.1.1"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "a06f77d526c1a601b7c4cdd98f54b5eaabffc14d5f2f0296febdc7f357c6d3ba"
-
-[[package]]
-name = "generic-array"
-version = "0.12.3"
+name = "cfg-if"
+version = "1.0.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "c68f0274ae0e023facc3c97b2e00f076be70e254bc851d972503b328db79b2ec"
-dependencies = [
- "typenum",
-]
-
-[[package]]
-name = "libc"
-version = "0.2.70"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "3baa92041a6fec78c687fa0cc2b3fae8884f743d672cf551bed1d6dac6988d0f"
+checksum = "4e7648175b45a9a48536d676f68d918270699102aa8dab5496df06904c914600"
 
 [[package]]
-name = "libm"
-version = "0.2.1"
+name = "crossbeam-deque"
+version = "0.8.8"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "c7d73b3f436185384286bd8098d17ec07c9a7d2388a6599f824d8502b529702a"
-
-[[package]]
-name = "matrixmultiply"
-version = "0.2.3"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "d4f7ec66360130972f34830bfad9ef05c6610a43938a467bcc9ab9369ab3478f"
+checksum = "622f3fc73690be383c7214310406f28a90e6edeadc3cea882f9d71e495b9711a"
 dependencies = [
- "rawpointer",
+ "crossbeam-epoch",
+ "crossbeam-utils",
 ]
 
 [[package]]
-name = "nalgebra"
-version = "0.18.1"
+name = "crossbeam-epoch"
+version = "0.9.21"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "aaa9fddbc34c8c35dd2108515587b8ce0cab396f17977b8c738568e4edb521a2"
+checksum = "dc74980687109a3b14c72fd458107bf0baa1da1a1a805e178d15501ba9b86d9d"
 dependencies = [
- "alga",
- "approx",
- "generic-array",
- "matrixmultiply",
- "num-complex",
- "num-rational",
- "num-traits",
- "rand",
- "typenum",
+ "crossbeam-utils",
 ]
 
 [[package]]
-name = "num-complex"
-version = "0.2.4"
+name = "crossbeam-utils"
+version = "0.8.23"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "b6b19411a9719e753aff12e5187b74d60d3dc449ec3f4dc21e3989c3f554bc95"
-dependencies = [
- "autocfg 1.0.0",
- "num-traits",
-]
+checksum = "a31eee39dddec8330830986fcd7625edb5a24ec90ea038215273bbc3adb08ac6"
 
 [[package]]
-name = "num-integer"
-version = "0.1.42"
+name = "either"
+version = "1.19.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "3f6ea62e9d81a77cd3ee9a2a5b9b609447857f3d358704331e4ef39eb247fcba"
-dependencies = [
- "autocfg 1.0.0",
- "num-traits",
-]
+checksum = "0e9c71c2167ca323c882b99918929403426e2373ea17242ff5653e0d5e1058be"
 
 [[package]]
-name = "num-rational"
-version = "0.2.4"
+name = "glam"
+version = "0.8.7"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "5c000134b5dbf44adc5cb772486d335293351644b801551abe8f75c84cfa4aef"
-dependencies = [
- "autocfg 1.0.0",
- "num-integer",
- "num-traits",
-]
+checksum = "b00572b5b10070ac495be20a25b4c8d379d20bcdec8ea0c870022b620ec79b20"
 
 [[package]]
-name = "num-traits"
-version = "0.2.11"
+name = "lexical-core"
+version = "0.7.6"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "c62be47e61d1842b9170f0fdeec8eba98e60e90e5446449a0545e5152acd7096"
-dependencies = [
- "autocfg 1.0.0",
- "libm",
-]
-
-[[package]]
-name = "quarchitect"
-version = "0.1.0"
+checksum = "6607c62aa161d23d17a9072cc5da0be67cdfc89d3afb1e8d9c842bebc2525ffe"
 dependencies = [
- "nalgebra",
-]
-
-[[package]]
-name = "rand"
-version = "0.6.5"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "6d71dacdc3c88c1fde3885a3be3fbab9f35724e6ce99467f7d9c5026132184ca"
-dependencies = [
- "autocfg 0.1.7",
- "libc",
- "rand_chacha",
- "rand_core 0.4.2",
- "rand_hc",
- "rand_isaac",
- "rand_jitter",
- "rand_os",
- "rand_pcg",
- "rand_xorshift",
- "winapi",
-]
-
-[[package]]
-name = "rand_chacha"
-version = "0.1.1"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "556d3a1ca6600bfcbab7c7c91ccb085ac7fbbcd70e008a98742e7847f4f7bcef"
-dependencies = [
- "autocfg 0.1.7",
- "rand_core 0.3.1",
-]
-
-[[package]]
-name = "rand_core"
-version = "0.3.1"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "7a6fdeb83b075e8266dcc8762c22776f6877a63111121f5f8c7411e5be7eed4b"
-dependencies = [
- "rand_core 0.4.2",
-]
-
-[[package]]
-name = "rand_core"
-version = "0.4.2"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "9c33a3c44ca05fa6f1807d8e6743f3824e8509beca625669633be0acbdf509dc"
-
-[[package]]
-name = "rand_hc"
-version = "0.1.0"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "7b40677c7be09ae76218dc623efbf7b18e34bced3f38883af07bb75630a21bc4"
-dependencies = [
- "rand_core 0.3.1",
-]
-
-[[package]]
-name = "rand_isaac"
-version = "0.1.1"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "ded997c9d5f13925be2a6fd7e66bf1872597f759fd9dd93513dd7e92e5a5ee08"
-dependencies = [
- "rand_core 0.3.1",
+ "arrayvec",
+ "bitflags",
+ "cfg-if",
+ "ryu",
+ "static_assertions",
 ]
 
 [[package]]
-name = "rand_jitter"
-version = "0.1.4"
+name = "memchr"
+version = "2.8.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "1166d5c91dc97b88d1decc3285bb0a99ed84b05cfd0bc2341bdf2d43fc41e39b"
-dependencies = [
- "libc",
- "rand_core 0.4.2",
- "winapi",
-]
+checksum = "cf8baf1c55e62ffcace7a9f06f4bd9cd3f0c4beb022d3b367256b91b87513d98"
 
 [[package]]
-name = "rand_os"
-version = "0.1.3"
+name = "nom"
+version = "5.1.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "7b75f676a1e053fc562eafbb47838d67c84801e38fc1ba459e8f180deabd5071"
+checksum = "08959a387a676302eebf4ddbcbc611da04285579f76f88ee0506c63b1a61dd4b"
 dependencies = [
- "cloudabi",
- "fuchsia-cprng",
- "libc",
- "rand_core 0.4.2",
- "rdrand",
- "winapi",
+ "lexical-core",
+ "memchr",
+ "version_check",
 ]
 
 [[package]]
-name = "rand_pcg"
-version = "0.1.2"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "abf9b09b01790cfe0364f52bf32995ea3c39f4d2dd011eac241d2914146d0b44"
+name = "quarchitect"
+version = "0.8.0"
 dependencies = [
- "autocfg 0.1.7",
- "rand_core 0.4.2",
+ "glam",
+ "nom",
+ "rayon",
 ]
 
 [[package]]
-name = "rand_xorshift"
-version = "0.1.1"
+name = "rayon"
+version = "1.12.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "cbf7e9e623549b0e21f6e97cf8ecf247c1a8fd2e8a992ae265314300b2455d5c"
+checksum = "fb39b166781f92d482534ef4b4b1b2568f42613b53e5b6c160e24cfbfa30926d"
 dependencies = [
- "rand_core 0.3.1",
+ "either",
+ "rayon-core",
 ]
 
 [[package]]
-name = "rawpointer"
-version = "0.2.1"
+name = "rayon-core"
+version = "1.13.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "60a357793950651c4ed0f3f52338f53b2f809f32d83a07f72909fa13e4c6c1e3"
-
-[[package]]
-name = "rdrand"
-version = "0.4.0"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "678054eb77286b51581ba43620cc911abf02758c91f93f479767aed0f90458b2"
+checksum = "22e18b0f0062d30d4230b2e85ff77fdfe4326feb054b9783a3460d8435c8ab91"
 dependencies = [
- "rand_core 0.3.1",
+ "crossbeam-deque",
+ "crossbeam-utils",
 ]
 
 [[package]]
-name = "typenum"
-version = "1.12.0"
-source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "373c8a200f9e67a0c95e62a4f52fbf80c23b4381c05a17845531982fa99e6b33"
-
-[[package]]
-name = "winapi"
-version = "0.3.8"
+name = "ryu"
+version = "1.0.23"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "8093091eeb260906a183e6ae1abdba2ef5ef2257a21801128899c3fc699229c6"
-dependencies = [
- "winapi-i686-pc-windows-gnu",
- "winapi-x86_64-pc-windows-gnu",
-]
+checksum = "9774ba4a74de5f7b1c1451ed6cd5285a32eddb5cccb8cc655a4e50009e06477f"
 
 [[package]]
-name = "winapi-i686-pc-windows-gnu"
-version = "0.4.0"
+name = "static_assertions"
+version = "1.1.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "ac3b87c63620426dd9b991e5ce0329eff545bccbbb34f3be09ff6fb6ab51b7b6"
+checksum = "a2eb9349b6444b326872e140eb1cf5e7c522154d69e7a0ffb0fb81c06b37543f"
 
 [[package]]
-name = "winapi-x86_64-pc-windows-gnu"
-version = "0.4.0"
+name = "version_check"
+version = "0.9.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
+checksum = "0b928f33d975fc6ad9f86c8f283853ad26bdd5b10b7f1542aa2fa15e2289105a"
diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..bd18b3c 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..][..size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..][..size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -315,7 +315,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..][..size3];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From c122aed5e194582fcf01e19ffbbf81c9d0d05eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 02/29] fix: report damaged WAD files as errors instead of
 panicking or exhausting memory

---
 src/wad/mod.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index bd18b3c..ac76dc5 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        magic => return Err(format!("Unexpected WAD magic: {:?}", magic)),
     };
 
     let now = Instant::now();
@@ -149,11 +149,11 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64;
+            let offset = offset + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -183,20 +183,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
+    let entries = entries?.into_iter().flatten().collect();
 
     Ok(entries)
 }
@@ -262,12 +249,23 @@ fn read_mip_data(
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let file_size = match wad_file.metadata() {
+                Ok(metadata) => metadata.len(),
+                Err(err) => return Err(format!("Error reading WAD file size: {:?}", err)),
+            };
+
+            // Reject bogus dimensions before allocating space for them
+            let size0 = miptex.width as u64 * miptex.height as u64;
+            if size0 > file_size {
+                return Err(format!("Texture {:?} is larger than the WAD file", miptex));
+            }
+
+            let size0 = size0 as usize;
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
@@ -337,7 +335,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From de5bc2412182d4d01d020be6e0a8e6b089aded21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 03/29] fix: deliver flags properties as flags instead of
 choices

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..e2588e8 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -385,7 +385,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From 6fa42048a71757e40a7c6919bd8f35e6f6a04162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 04/29] fix: scale color255 map values to the 0-1 range used by
 color defaults

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index e2588e8..24319fc 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -436,7 +436,7 @@ fn parse_color_property(value: &str) -> Option<Color> {
         None => return None,
     };
 
-    Some(Color::new(r, g, b))
+    Some(Color::new(r / 255.0, g / 255.0, b / 255.0))
 }
 
 fn parse_float(comps: &mut dyn std::iter::Iterator<Item = &str>) -> Option<f32> {
-- 
2.43.0


From 4bfef798c9dc3100b402230e76ff91ce3b29b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 05/29] fix: resolve choices properties to the index of the
 selected choice

---
 src/scene_tree/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 24319fc..34e0015 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -365,11 +365,18 @@ fn get_entity_properties(
 
                 Property::Color(color)
             }
-            crate::game_data::forge::PropertyData::Choices(_, default) => {
+            crate::game_data::forge::PropertyData::Choices(choices, default) => {
+                // Maps hold the value of the selected choice, properties hold its index
+                let selected = value.and_then(|value| {
+                    choices
+                        .iter()
+                        .position(|choice| &choice.value.to_string() == value)
+                });
+
                 let value = match value {
-                    Some(value) => match value.parse::<i32>() {
-                        Ok(value) => value,
-                        Err(_) => *default,
+                    Some(value) => match selected {
+                        Some(index) => index as i32,
+                        None => value.parse::<i32>().unwrap_or(*default),
                     },
                     None => *default,
                 };
-- 
2.43.0


From 5e4532137eb3fc5b5fab3ad91f2471b8e3cb5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 06/29] fix: ignore non-integer _tb_id and _tb_group values
 instead of panicking

---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 34e0015..031f662 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From c87e767a7dceb09031d3608054b5dc7ab4c5727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 07/29] fix: treat malformed key/value lines as unrecognized
 instead of panicking

---
 src/map/quake/tokenizer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..18cb272 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -48,12 +48,11 @@ pub fn run(file_string: String) -> Vec<Token> {
         .map(|line| match line.chars().next() {
             Some('/') => Token::comment(line),
             Some('"') => {
-                let mut comps = line.split('"');
-                comps.next();
-                let key = comps.next().unwrap();
-                comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                let comps: Vec<&str> = line.split('"').collect();
+                match comps[..] {
+                    [_, key, _, value, ..] => Token::property(key, value),
+                    _ => Token::unrecognized(&line),
+                }
             }
             Some('{') => Token::OpenBrace,
             Some('}') => Token::CloseBrace,
-- 
2.43.0


From d5c0e1310a5257d5f8593cbae3656001a3dfb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 08/29] fix: report malformed brush plane lines as errors
 instead of panicking

---
 src/map/quake/types/brush_plane.rs | 47 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..eda2bf6 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -92,6 +92,17 @@ pub struct BrushPlane {
     pub extra: ExtraData,
 }
 
+fn parse_comp(comp: Option<&str>) -> Result<&str, QuarchitectError> {
+    comp.ok_or(QuarchitectError("Missing brush plane component"))
+}
+
+fn parse_float(comp: Option<&str>) -> Result<f32, QuarchitectError> {
+    match parse_comp(comp)?.parse() {
+        Ok(value) => Ok(value),
+        Err(_err) => Err(QuarchitectError("Failed to parse brush plane component")),
+    }
+}
+
 impl BrushPlane {
     pub fn new(source: &str) -> Result<BrushPlane, QuarchitectError> {
         let mut comps = source.split_whitespace();
@@ -102,9 +113,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x = parse_float(comps.next())?;
+            let y = parse_float(comps.next())?;
+            let z = parse_float(comps.next())?;
             comps.next();
 
             let v = match i {
@@ -119,26 +130,26 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = parse_comp(comps.next())?.to_lowercase();
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match parse_comp(comps.next())?.parse::<f32>() {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v = parse_float(comps.next())?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux = parse_float(comps.next())?;
+                let uy = parse_float(comps.next())?;
+                let uz = parse_float(comps.next())?;
+                let uo = parse_float(comps.next())?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx = parse_float(comps.next())?;
+                let vy = parse_float(comps.next())?;
+                let vz = parse_float(comps.next())?;
+                let vo = parse_float(comps.next())?;
                 
                 comps.next();
 
@@ -146,16 +157,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation = parse_float(comps.next())?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x = parse_float(comps.next())?;
+        let y = parse_float(comps.next())?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(parse_float(extra_comps.first().copied())?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From d346e1bc7382aac38a24dcfd541143ca386686ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 09/29] fix: reject maps that end inside a scope or hold
 entities without classname

---
 src/map/quake/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..5aa447b 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -191,5 +191,17 @@ pub fn run(
         }
     }
 
+    match scope {
+        ParseScope::File => (),
+        _ => return Err(QuarchitectError("Unexpected end of file")),
+    }
+
+    if entities
+        .iter()
+        .any(|entity| entity.get_property("classname").is_none())
+    {
+        return Err(QuarchitectError("Entity without classname"));
+    }
+
     Ok((token_paths, entities))
 }
-- 
2.43.0


From db7d6069ff9cff61b11a495015088ec8ebaf2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 10/29] fix: report a missing or repeated worldspawn as an
 error instead of panicking

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..678b8ce 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..782fd1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From 2529f66519295007fef0d51ca7e21beacc19506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 11/29] fix: build the configured worldspawn layers in order
 instead of two fixed ones in random order

---
 src/layer_filter/mod.rs | 19 ++++++++++---------
 src/lib.rs              |  5 ++++-
 src/scene_tree/mod.rs   | 11 +++++------
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 678b8ce..bd66a89 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,18 +1,19 @@
+use crate::game_data::WorldspawnLayer;
 use crate::geo_builder;
 use crate::map;
 use crate::QuarchitectError;
-use std::collections::HashMap;
 
 pub fn run(
+    layers: &[WorldspawnLayer],
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> Result<
     (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+        Vec<(String, Vec<geo_builder::brush::Geometry>)>,
     ),
     QuarchitectError,
 > {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: Vec<(String, Vec<geo_builder::brush::Geometry>)> = Vec::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
@@ -36,15 +37,15 @@ pub fn run(
 
         let worldspawn_brush_geo = worldspawn_geometry.brush_geometry;
 
-        let worldspawn_layer_textures = vec!["*water0", "*slime0"];
-
         let mut worldspawn_brush_geo = worldspawn_brush_geo;
-        for layer_texture in worldspawn_layer_textures {
-            let (layer_geometry, worldspawn_geometry) = worldspawn_brush_geo
+        for layer in layers {
+            let (layer_geometry, worldspawn_geometry): (Vec<_>, Vec<_>) = worldspawn_brush_geo
                 .into_iter()
-                .partition(brush_geometry_by_layer(layer_texture));
+                .partition(brush_geometry_by_layer(&layer.texture));
 
-            worldspawn_layers.insert(layer_texture.into(), layer_geometry);
+            if !layer_geometry.is_empty() {
+                worldspawn_layers.push((layer.texture.clone(), layer_geometry));
+            }
             worldspawn_brush_geo = worldspawn_geometry;
         }
 
diff --git a/src/lib.rs b/src/lib.rs
index 782fd1b..957abd5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,10 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(
+        &config.quarchitect_game_data.worldspawn_layers,
+        entity_data,
+    )?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 031f662..080aa65 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &[(String, Vec<brush::Geometry>)],
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
@@ -125,8 +125,8 @@ fn build_entity<'a>(
 
 fn build_worldspawn_layer<'a>(
     quarchitect_game_data: &'a crate::game_data::GameData,
-) -> impl Fn((&String, &Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
-    move |(layer_texture, brush_geometry): (&String, &Vec<brush::Geometry>)| {
+) -> impl Fn(&(String, Vec<brush::Geometry>)) -> Option<SceneTreeNode> + 'a {
+    move |(layer_texture, brush_geometry): &(String, Vec<brush::Geometry>)| {
         let layer_data: Vec<&WorldspawnLayer> = quarchitect_game_data
             .worldspawn_layers
             .iter()
@@ -140,8 +140,7 @@ fn build_worldspawn_layer<'a>(
         let properties = Properties::default();
         let mut children: Vec<SceneTreeNode> = Vec::new();
 
-        if layer_data.len() == 1 {
-            let layer_data: &WorldspawnLayer = layer_data[0];
+        if let Some(layer_data) = layer_data.into_iter().next() {
             name = layer_data.name.clone();
             actor_type = layer_data.entity_type.clone();
             component_class = match &layer_data.component_type {
@@ -170,7 +169,7 @@ fn build_worldspawn_layer<'a>(
             }
         } else {
             println!(
-                "Worldspawn layer data for texture {:?} is not a singleton",
+                "No worldspawn layer data for texture {:?}",
                 layer_texture
             );
         }
-- 
2.43.0


From df2e4943872fc2b0d59fc3073de27fdef7a05ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 12/29] fix: keep every entity exactly once when groups are
 missing, repeated or circular

---
 src/scene_tree/mod.rs | 46 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 080aa65..b1896ce 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -36,14 +36,18 @@ pub fn run(
     // Introduce a new 'group_entity' point class that takes a brush entity classname as a parameter,
     // and causes its parent group to spawn as an instance of that classname instead of as a func_group
 
+    let groups = resolve_groups(entity_data);
+
     entity_data
         .iter()
+        .enumerate()
         .take(1)
         .flat_map(build_entity(
             quarchitect_game_data,
             forge_game_data,
             texture_blacklist,
             entity_data,
+            &groups,
             Vector3::new(0.0, 0.0, 0.0)
         ))
         .chain(
@@ -54,27 +58,55 @@ pub fn run(
         .chain(
             entity_data
                 .iter()
+                .enumerate()
                 .skip(1)
-                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
+                .filter(|(idx, _entity_data)| groups[*idx].is_none())
                 .flat_map(build_entity(
                     quarchitect_game_data,
                     forge_game_data,
                     texture_blacklist,
                     entity_data,
+                    &groups,
                     Vector3::new(0.0, 0.0, 0.0)
                 )),
         )
         .collect()
 }
 
+/// Finds the index of the entity each entity is grouped under.
+/// Links to missing groups and links that would form a cycle are ignored.
+fn resolve_groups(entity_data: &[(Entity, entity::Geometry)]) -> Vec<Option<usize>> {
+    let mut groups: Vec<Option<usize>> = vec![None; entity_data.len()];
+
+    for (idx, (entity, _geometry)) in entity_data.iter().enumerate().skip(1) {
+        let group = entity.properties.get("_tb_group").and_then(|tb_group| {
+            entity_data
+                .iter()
+                .position(|(entity, _geometry)| entity.properties.get("_tb_id") == Some(tb_group))
+        });
+
+        let mut ancestor = group;
+        while ancestor.is_some() && ancestor != Some(idx) {
+            ancestor = ancestor.and_then(|ancestor| groups[ancestor]);
+        }
+
+        if ancestor.is_none() {
+            groups[idx] = group;
+        }
+    }
+
+    groups
+}
+
 fn build_entity<'a>(
     quarchitect_game_data: &'a GameData,
     forge_game_data: &'a crate::game_data::forge::GameData,
     texture_blacklist: &'a TextureBlacklist,
     entity_data: &'a [(Entity, entity::Geometry)],
+    groups: &'a [Option<usize>],
     origin: Vector3
-) -> impl Fn(&'a (Entity, entity::Geometry)) -> Option<SceneTreeNode> + 'a {
-    move |(entity, entity_geometry): &(Entity, entity::Geometry)| {
+) -> impl Fn((usize, &'a (Entity, entity::Geometry))) -> Option<SceneTreeNode> + 'a {
+    move |(idx, (entity, entity_geometry)): (usize, &(Entity, entity::Geometry))| {
         let mut children: Vec<SceneTreeNode> = Vec::new();
 
         match get_entity_visual_geometry(
@@ -92,19 +124,17 @@ fn build_entity<'a>(
             c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
         }
 
-        let tb_id = entity.properties.get("_tb_id");
         let mut child_entities: Vec<SceneTreeNode> = entity_data
             .iter()
+            .enumerate()
             .skip(1)
-            .filter(|(child_entity, _geometry)| {
-                let child_group = child_entity.properties.get("_tb_group");
-                child_group.is_some() && child_group == tb_id
-            })
+            .filter(|(child_idx, _entity_data)| groups[*child_idx] == Some(idx))
             .flat_map(build_entity(
                 quarchitect_game_data,
                 forge_game_data,
                 texture_blacklist,
                 entity_data,
+                groups,
                 -entity_geometry.center
             ))
             .collect();
-- 
2.43.0


From bac5e7eb92ce5bdc6871e68f4f29d9259324c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 13/29] fix: ignore degenerate planes instead of building
 vertices from NaN

---
 src/geo_builder/brush_plane/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..fae4091 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,7 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    if denom.is_nan() || denom < CMP_EPSILON {
         return None;
     }
 
-- 
2.43.0


From b86a25a09c870bbd49a918407e26e355176a92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 14/29] fix: merge vertices into one with the same attributes,
 not just the same position

---
 src/scene_tree/mod.rs               | 14 +++++---------
 src/scene_tree/predicates/vertex.rs | 10 ++++++----
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index b1896ce..12f9961 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -730,7 +730,7 @@ fn gather_entity_geometry<'a>(
     entity_geometry: &'a entity::Geometry,
     brush_predicate: Option<&dyn Fn(&&crate::geo_builder::brush::Geometry) -> bool>,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> usize>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let brush_predicate = match brush_predicate {
         Some(brush_predicate) => brush_predicate,
@@ -772,7 +772,7 @@ fn gather_entity_geometry<'a>(
 fn gather_brush_geometry<'a>(
     brush_geometry: &'a brush::Geometry,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> usize>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let plane_geometry = &brush_geometry.plane_geometry;
 
@@ -816,22 +816,18 @@ fn gather_brush_geometry<'a>(
 fn filter_vertices<'a>(
     vertices: &[&'a Vertex],
     indices: Vec<usize>,
-    predicate: &dyn Fn(usize, &Vertex, &[&Vertex]) -> bool,
+    predicate: &dyn Fn(usize, &Vertex, &[&Vertex]) -> usize,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let mut indices = indices;
     let mut new_indices: Vec<usize> = Vec::new();
     let mut new_vertices: Vec<&Vertex> = Vec::new();
 
     for (i, vertex) in vertices.iter().enumerate() {
-        if predicate(i, vertex, &vertices) {
+        let position = predicate(i, vertex, &vertices);
+        if position == i {
             new_indices.push(i);
             new_vertices.push(vertex);
         } else {
-            let position = vertices
-                .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
-                .unwrap();
-
             indices = indices
                 .iter()
                 .map(|index| if *index == i { position } else { *index })
diff --git a/src/scene_tree/predicates/vertex.rs b/src/scene_tree/predicates/vertex.rs
index f3594fa..5a67e76 100644
--- a/src/scene_tree/predicates/vertex.rs
+++ b/src/scene_tree/predicates/vertex.rs
@@ -1,6 +1,7 @@
 use crate::Vertex;
 
-pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
+/// Index of the first vertex that is interchangeable with the vertex at the given index
+pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> usize {
     let position = vertices.iter().position(|comp| {
         comp.vertex == vertex.vertex
             && comp.normal == vertex.normal
@@ -9,13 +10,14 @@ pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
             && comp.color == vertex.color
     });
 
-    position.is_none() || position.unwrap() >= i
+    position.unwrap_or(i)
 }
 
-pub fn unique_position(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
+/// Index of the first vertex at the same position as the vertex at the given index
+pub fn unique_position(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> usize {
     let position = vertices
         .iter()
         .position(|comp| comp.vertex == vertex.vertex);
 
-    position.is_none() || position.unwrap() >= i
+    position.unwrap_or(i)
 }
-- 
2.43.0


From 6c6b6761a92dd7b71e30b47984efdf967287946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 15/29] fix: rotate standard tangents in the direction the
 texture is rotated

---
 src/geo_builder/brush_plane/tangents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index b9cb9f4..82221a3 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -34,7 +34,7 @@ fn standard_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
 
     match tangent {
         Some((v, s)) => (
-            crate::Quat::from_axis_angle(brush_plane.normal(), -brush_plane.rotation.to_radians() * s) * v,
+            crate::Quat::from_axis_angle(brush_plane.normal(), brush_plane.rotation.to_radians() * s) * v,
             s * brush_plane.scale.y().signum(),
         ),
         None => panic!("Failed to generate tangent"),
-- 
2.43.0


From af74cfe2c84f0fff44a12f58a8083bac1a4baec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 16/29] fix: mirror tangents along with textures of negative
 scale

---
 src/geo_builder/brush_plane/tangents.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index 82221a3..ec67c19 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -34,8 +34,10 @@ fn standard_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
 
     match tangent {
         Some((v, s)) => (
-            crate::Quat::from_axis_angle(brush_plane.normal(), brush_plane.rotation.to_radians() * s) * v,
-            s * brush_plane.scale.y().signum(),
+            crate::Quat::from_axis_angle(brush_plane.normal(), brush_plane.rotation.to_radians() * s)
+                * v
+                * brush_plane.scale.x().signum(),
+            s * brush_plane.scale.x().signum() * brush_plane.scale.y().signum(),
         ),
         None => panic!("Failed to generate tangent"),
     }
@@ -48,7 +50,10 @@ fn valve_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
             .cross(uv.u_axis)
             .dot(uv.v_axis)
             .signum();
-        (uv.u_axis, v_sign)
+        (
+            uv.u_axis * brush_plane.scale.x().signum(),
+            v_sign * brush_plane.scale.x().signum() * brush_plane.scale.y().signum(),
+        )
     } else {
         panic!("Not a valve UV");
     }
-- 
2.43.0


From 33a83d38dd083de8ecd2f63b1f49b9125ef139df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 17/29] fix: project 45 degree faces along x before y, as Quake
 does

---
 src/geo_builder/brush_plane/tangents.rs | 4 ++--
 src/geo_builder/brush_plane/uvs.rs      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index ec67c19..4e8e189 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -26,10 +26,10 @@ fn standard_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
 
     if du_abs >= dr_abs && du_abs >= df_abs {
         tangent = Some((forward_vector, du.signum()));
-    } else if dr_abs >= du_abs && dr_abs >= df_abs {
-        tangent = Some((forward_vector, -dr.signum()));
     } else if df_abs >= du_abs && df_abs >= dr_abs {
         tangent = Some((right_vector, df.signum()));
+    } else if dr_abs >= du_abs && dr_abs >= df_abs {
+        tangent = Some((forward_vector, -dr.signum()));
     }
 
     match tangent {
diff --git a/src/geo_builder/brush_plane/uvs.rs b/src/geo_builder/brush_plane/uvs.rs
index c807541..bdd5c5c 100644
--- a/src/geo_builder/brush_plane/uvs.rs
+++ b/src/geo_builder/brush_plane/uvs.rs
@@ -24,12 +24,12 @@ fn standard_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) ->
     if du >= dr && du >= df {
         x = vertex.x();
         y = -vertex.y();
-    } else if dr >= du && dr >= df {
-        x = vertex.x();
-        y = -vertex.z();
     } else if df >= du && df >= dr {
         x = vertex.y();
         y = -vertex.z();
+    } else if dr >= du && dr >= df {
+        x = vertex.x();
+        y = -vertex.z();
     }
     else {
         panic!("Zero-length normal");
-- 
2.43.0


From 20cb695d4684fcb23fda1ee3aac0c505d9c1232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 18/29] fix: diff whole token sequences by position instead of
 dropping the last lines and repeated ones

---
 src/map/quake/tokenizer.rs | 50 ++++++++++++--------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 18cb272..36e8999 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -84,12 +84,9 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
-            if index_x == 0 || index_y == 0 {
-                l[index_x][index_y] = 0;
-            }
-            else if tokens_a[index_x-1] == tokens_b[index_y-1] {
+    for index_x in 1..=size_x {
+        for index_y in 1..=size_y {
+            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                 l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
             }
             else {
@@ -98,45 +95,28 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
+    let mut removed: Vec<&Token> = Vec::new();
+    let mut added: Vec<&Token> = Vec::new();
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
-    while i > 0 && j > 0 {
-        if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+    let mut i = size_x;
+    let mut j = size_y;
+    while i > 0 || j > 0 {
+        if i > 0 && j > 0 && tokens_a[i-1] == tokens_b[j-1] {
             i -= 1;
             j -= 1;
-            index -= 1;
         }
-        else if l[i-1][j] > l[i][j-1] {
+        else if j == 0 || (i > 0 && l[i-1][j] > l[i][j-1]) {
+            removed.push(&tokens_a[i-1]);
             i -= 1;
         }
         else {
+            added.push(&tokens_b[j-1]);
             j -= 1;
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
-    let mut removed: Vec<&Token> = Vec::new();
-    for token in tokens_a {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            removed.push(token);
-        }
-    }
-
-    let mut added: Vec<&Token> = Vec::new();
-    for token in tokens_b {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            added.push(token);
-        }
-    }
+    removed.reverse();
+    added.reverse();
 
     Diff::new(added, removed)
-}
\ No newline at end of file
+}
-- 
2.43.0


From 1ea9a29b8f618891a2e398792dac5b6c5defc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 19/29] fix: write all 32 flags to the FGD

---
 src/game_data/forge/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_data/forge/property.rs b/src/game_data/forge/property.rs
index ec488e9..b81bfe0 100644
--- a/src/game_data/forge/property.rs
+++ b/src/game_data/forge/property.rs
@@ -106,12 +106,12 @@ impl ToString for Property {
                         .iter()
                         .enumerate()
                         .fold(String::new(), |acc, (i, next)| {
-                            let bit = 2_i32.pow(i as u32);
+                            let bit = 2_u32.pow(i as u32);
                             acc + &format!(
                                 "\t\t{} : \"{}\" : {}\n",
                                 bit,
                                 next,
-                                if *default & bit > 0 { 1 } else { 0 }
+                                if *default as u32 & bit != 0 { 1 } else { 0 }
                             )
                         });
                 format!("{}(flags) =\n\t[\n{}\t]", self.name, flags_string)
-- 
2.43.0


From 70a6a773230880de5dd59c1abea065ff312fc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 20/29] fix: compute brush corners in double precision so that
 none are lost or repeated

---
 src/geo_builder/brush_plane/mod.rs      |  1 +
 src/geo_builder/brush_plane/vertices.rs | 70 ++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..949ecab 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -123,6 +123,7 @@ fn build_plane_vertex(
 ) -> Option<Vertex> {
     if let Some(vertex) = vertices::intersect_brush_planes(plane, p1, p2) {
         if vertices::vertex_in_hull(vertex, planes) {
+            let vertex = vertices::single(vertex);
             let normal = normals::vertex_normal(entity, plane, p1, p2);
             let tangent = tangents::vertex_tangent(plane);
 
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index fae4091..08fb0f9 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -1,34 +1,78 @@
-use crate::map::quake::BrushPlane;
 use crate::Vector3;
+use crate::map::quake::BrushPlane;
+
+const CMP_EPSILON: f64 = 0.001;
+const SNAP: f64 = 1048576.0;
 
-const CMP_EPSILON: f32 = 0.001;
+// Corners are computed in double precision, as the error of single precision
+// exceeds the comparison epsilon at ordinary map coordinates
+type DVector3 = [f64; 3];
+
+fn double(v: Vector3) -> DVector3 {
+    [v.x() as f64, v.y() as f64, v.z() as f64]
+}
+
+fn dot(a: DVector3, b: DVector3) -> f64 {
+    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
+}
+
+fn cross(a: DVector3, b: DVector3) -> DVector3 {
+    [
+        a[1] * b[2] - a[2] * b[1],
+        a[2] * b[0] - a[0] * b[2],
+        a[0] * b[1] - a[1] * b[0],
+    ]
+}
+
+fn normal_and_dist(plane: &BrushPlane) -> (DVector3, f64) {
+    let v0 = double(plane.v0);
+    let v1 = double(plane.v1);
+    let v2 = double(plane.v2);
+
+    let v0v1 = [v1[0] - v0[0], v1[1] - v0[1], v1[2] - v0[2]];
+    let v0v2 = [v2[0] - v0[0], v2[1] - v0[1], v2[2] - v0[2]];
+    let n = cross(v0v2, v0v1);
+    let length = dot(n, n).sqrt();
+    let n = [n[0] / length, n[1] / length, n[2] / length];
+
+    (n, dot(n, v0))
+}
 
 pub fn intersect_brush_planes(
     p0: &BrushPlane,
     p1: &BrushPlane,
     p2: &BrushPlane,
-) -> Option<Vector3> {
-    let n0 = p0.normal();
-    let n1 = p1.normal();
-    let n2 = p2.normal();
+) -> Option<DVector3> {
+    let (n0, d0) = normal_and_dist(p0);
+    let (n1, d1) = normal_and_dist(p1);
+    let (n2, d2) = normal_and_dist(p2);
 
-    let denom = n0.cross(n1).dot(n2);
+    let denom = dot(cross(n0, n1), n2);
 
     if denom.is_nan() || denom < CMP_EPSILON {
         return None;
     }
 
-    Some(
-        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom,
-    )
+    let (n12, n20, n01) = (cross(n1, n2), cross(n2, n0), cross(n0, n1));
+    let coord = |i: usize| (n12[i] * d0 + n20[i] * d1 + n01[i] * d2) / denom;
+
+    // Snap so that a corner is the same whichever of its planes it is computed from
+    let snap = |x: f64| (x * SNAP).round() / SNAP;
+
+    Some([snap(coord(0)), snap(coord(1)), snap(coord(2))])
 }
 
-pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
+pub fn vertex_in_hull(vertex: DVector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
-        let proj = brush_plane.normal().dot(vertex);
-        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
+        let (normal, dist) = normal_and_dist(brush_plane);
+        let proj = dot(normal, vertex);
+        if proj > dist && proj - dist > CMP_EPSILON {
             return false;
         }
     }
     true
 }
+
+pub fn single(v: DVector3) -> Vector3 {
+    Vector3::new(v[0] as f32, v[1] as f32, v[2] as f32)
+}
-- 
2.43.0


From 552c9135616e14fb83317c82d35c33e6422be77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 21/29] fix: keep face corners exact while sorting them, so
 that faces of a brush share them

---
 src/geo_builder/brush_plane/mod.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 949ecab..595fba2 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -67,18 +67,13 @@ pub fn build(
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.vertex)
         / unique_vertices.len().max(1) as f32;
 
-    let mut local_vertices = unique_vertices;
-    for vertex in local_vertices.iter_mut() {
-        vertex.vertex -= center;
-    }
-
     let u_axis = (plane.v1 - plane.v0).normalize();
     let v_axis = plane.normal().cross(u_axis);
 
-    let mut wound_vertices = local_vertices;
-    wound_vertices.sort_by(|a, b| {
-        let vert_a = a.vertex;
-        let vert_b = b.vertex;
+    let mut world_vertices = unique_vertices;
+    world_vertices.sort_by(|a, b| {
+        let vert_a = a.vertex - center;
+        let vert_b = b.vertex - center;
 
         let lhs_pu = vert_a.dot(u_axis);
         let lhs_pv = vert_a.dot(v_axis);
@@ -92,11 +87,6 @@ pub fn build(
         rhs_angle.partial_cmp(&lhs_angle).unwrap_or(Ordering::Equal)
     });
 
-    let mut world_vertices = wound_vertices;
-    for vertex in world_vertices.iter_mut() {
-        vertex.vertex += center;
-    }
-
     let indices: Vec<usize> = if world_vertices.len() < 3 {
         Vec::new()
     } else {
-- 
2.43.0


From bf5316ba99982899315f44523d26525ab9620702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:24 +0000
Subject: [PATCH 22/29] fix: compute plane normals in double precision so that
 large coordinates do not panic

---
 src/map/quake/types/brush_plane.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index eda2bf6..028a747 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -185,9 +185,27 @@ impl BrushPlane {
     }
 
     pub fn normal(&self) -> Vector3 {
-        let v0v1 = self.v1 - self.v0;
-        let v0v2 = self.v2 - self.v0;
-        v0v2.cross(v0v1).normalize()
+        // Double precision, as the squares of large coordinates overflow single precision
+        let delta = |v: Vector3| {
+            [
+                v.x() as f64 - self.v0.x() as f64,
+                v.y() as f64 - self.v0.y() as f64,
+                v.z() as f64 - self.v0.z() as f64,
+            ]
+        };
+        let a = delta(self.v2);
+        let b = delta(self.v1);
+        let n = [
+            a[1] * b[2] - a[2] * b[1],
+            a[2] * b[0] - a[0] * b[2],
+            a[0] * b[1] - a[1] * b[0],
+        ];
+        let length = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
+        Vector3::new(
+            (n[0] / length) as f32,
+            (n[1] / length) as f32,
+            (n[2] / length) as f32,
+        )
     }
 
     pub fn dist(&self) -> f32 {
-- 
2.43.0


From ab53e4ce864922227c39c16c10b7351ad1f64605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:08 +0000
Subject: [PATCH 23/29] fix: build nested groups without recursion so that deep
 nesting does not exhaust the stack

---
 src/scene_tree/mod.rs | 201 ++++++++++++++++++++++++------------------
 1 file changed, 113 insertions(+), 88 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 12f9961..4394c07 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -37,120 +37,145 @@ pub fn run(
     // and causes its parent group to spawn as an instance of that classname instead of as a func_group
 
     let groups = resolve_groups(entity_data);
+    let mut children: Vec<Vec<usize>> = vec![Vec::new(); entity_data.len()];
+    for (idx, group) in groups.iter().enumerate() {
+        if let Some(group) = group {
+            children[*group].push(idx);
+        }
+    }
 
-    entity_data
-        .iter()
-        .enumerate()
-        .take(1)
-        .flat_map(build_entity(
+    // Assemble without recursion, as groups can be nested to any depth:
+    // every entity precedes its children, so building back to front has them ready
+    let mut order: Vec<usize> = Vec::new();
+    let mut pending: Vec<usize> = (0..entity_data.len())
+        .filter(|idx| groups[*idx].is_none())
+        .collect();
+    while let Some(idx) = pending.pop() {
+        order.push(idx);
+        pending.extend(&children[idx]);
+    }
+
+    let mut nodes: Vec<Option<SceneTreeNode>> = entity_data.iter().map(|_| None).collect();
+    for idx in order.into_iter().rev() {
+        let origin = match groups[idx] {
+            Some(group) => -entity_data[group].1.center,
+            None => Vector3::new(0.0, 0.0, 0.0),
+        };
+        let child_entities: Vec<SceneTreeNode> = children[idx]
+            .iter()
+            .flat_map(|child_idx| nodes[*child_idx].take())
+            .collect();
+
+        nodes[idx] = Some(build_entity(
             quarchitect_game_data,
             forge_game_data,
             texture_blacklist,
-            entity_data,
-            &groups,
-            Vector3::new(0.0, 0.0, 0.0)
-        ))
+            &entity_data[idx],
+            child_entities,
+            origin,
+        ));
+    }
+
+    let mut nodes = nodes.into_iter();
+
+    nodes
+        .next()
+        .into_iter()
+        .flatten()
         .chain(
             worldspawn_layers
                 .iter()
                 .flat_map(build_worldspawn_layer(quarchitect_game_data)),
         )
-        .chain(
-            entity_data
-                .iter()
-                .enumerate()
-                .skip(1)
-                .filter(|(idx, _entity_data)| groups[*idx].is_none())
-                .flat_map(build_entity(
-                    quarchitect_game_data,
-                    forge_game_data,
-                    texture_blacklist,
-                    entity_data,
-                    &groups,
-                    Vector3::new(0.0, 0.0, 0.0)
-                )),
-        )
+        .chain(nodes.flatten())
         .collect()
 }
 
 /// Finds the index of the entity each entity is grouped under.
-/// Links to missing groups and links that would form a cycle are ignored.
+/// Links to missing groups are ignored, as is the last link of every cycle.
 fn resolve_groups(entity_data: &[(Entity, entity::Geometry)]) -> Vec<Option<usize>> {
-    let mut groups: Vec<Option<usize>> = vec![None; entity_data.len()];
+    let mut ids: HashMap<&String, usize> = HashMap::new();
+    for (idx, (entity, _geometry)) in entity_data.iter().enumerate() {
+        if let Some(tb_id) = entity.properties.get("_tb_id") {
+            ids.entry(tb_id).or_insert(idx);
+        }
+    }
 
-    for (idx, (entity, _geometry)) in entity_data.iter().enumerate().skip(1) {
-        let group = entity.properties.get("_tb_group").and_then(|tb_group| {
-            entity_data
-                .iter()
-                .position(|(entity, _geometry)| entity.properties.get("_tb_id") == Some(tb_group))
-        });
+    // Worldspawn comes first, and is never part of a group
+    let mut groups: Vec<Option<usize>> = entity_data
+        .iter()
+        .enumerate()
+        .map(|(idx, (entity, _geometry))| match idx {
+            0 => None,
+            _ => entity
+                .properties
+                .get("_tb_group")
+                .and_then(|tb_group| ids.get(tb_group).copied()),
+        })
+        .collect();
 
-        let mut ancestor = group;
-        while ancestor.is_some() && ancestor != Some(idx) {
-            ancestor = ancestor.and_then(|ancestor| groups[ancestor]);
+    let mut visited_from: Vec<Option<usize>> = vec![None; groups.len()];
+    for start in 0..groups.len() {
+        let mut current = Some(start);
+        while let Some(idx) = current {
+            if visited_from[idx].is_some() {
+                break;
+            }
+            visited_from[idx] = Some(start);
+            current = groups[idx];
         }
 
-        if ancestor.is_none() {
-            groups[idx] = group;
+        // Arriving where this walk has already been means going around a cycle
+        if let Some(first) = current.filter(|idx| visited_from[*idx] == Some(start)) {
+            let mut last = first;
+            let mut current = groups[first];
+            while let Some(idx) = current.filter(|idx| *idx != first) {
+                last = last.max(idx);
+                current = groups[idx];
+            }
+            groups[last] = None;
         }
     }
 
     groups
 }
 
-fn build_entity<'a>(
-    quarchitect_game_data: &'a GameData,
-    forge_game_data: &'a crate::game_data::forge::GameData,
-    texture_blacklist: &'a TextureBlacklist,
-    entity_data: &'a [(Entity, entity::Geometry)],
-    groups: &'a [Option<usize>],
-    origin: Vector3
-) -> impl Fn((usize, &'a (Entity, entity::Geometry))) -> Option<SceneTreeNode> + 'a {
-    move |(idx, (entity, entity_geometry)): (usize, &(Entity, entity::Geometry))| {
-        let mut children: Vec<SceneTreeNode> = Vec::new();
-
-        match get_entity_visual_geometry(
-            quarchitect_game_data,
-            texture_blacklist,
-            entity,
-            entity_geometry,
-        ) {
-            VisualGeometry::None => (),
-            v => children.push(SceneTreeNode::visual_geometry(entity_geometry.center, v)),
-        }
-
-        match get_entity_collision_geometry(quarchitect_game_data, entity, entity_geometry) {
-            CollisionGeometry::None => (),
-            c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
-        }
-
-        let mut child_entities: Vec<SceneTreeNode> = entity_data
-            .iter()
-            .enumerate()
-            .skip(1)
-            .filter(|(child_idx, _entity_data)| groups[*child_idx] == Some(idx))
-            .flat_map(build_entity(
-                quarchitect_game_data,
-                forge_game_data,
-                texture_blacklist,
-                entity_data,
-                groups,
-                -entity_geometry.center
-            ))
-            .collect();
-
-        children.append(&mut child_entities);
+fn build_entity(
+    quarchitect_game_data: &GameData,
+    forge_game_data: &crate::game_data::forge::GameData,
+    texture_blacklist: &TextureBlacklist,
+    (entity, entity_geometry): &(Entity, entity::Geometry),
+    mut child_entities: Vec<SceneTreeNode>,
+    origin: Vector3,
+) -> SceneTreeNode {
+    let mut children: Vec<SceneTreeNode> = Vec::new();
+
+    match get_entity_visual_geometry(
+        quarchitect_game_data,
+        texture_blacklist,
+        entity,
+        entity_geometry,
+    ) {
+        VisualGeometry::None => (),
+        v => children.push(SceneTreeNode::visual_geometry(entity_geometry.center, v)),
+    }
 
-        Some(SceneTreeNode::entity(
-            entity.properties.get("classname").unwrap().clone(),
-            origin + entity_geometry.center,
-            get_entity_type(quarchitect_game_data, &entity),
-            get_entity_component_class(quarchitect_game_data, &entity),
-            get_entity_property_application_type(quarchitect_game_data, &entity),
-            get_entity_properties(forge_game_data, &entity),
-            children,
-        ))
+    match get_entity_collision_geometry(quarchitect_game_data, entity, entity_geometry) {
+        CollisionGeometry::None => (),
+        c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
     }
+
+    children.append(&mut child_entities);
+
+    SceneTreeNode::entity(
+        entity.properties.get("classname").unwrap().clone(),
+        origin + entity_geometry.center,
+        get_entity_type(quarchitect_game_data, entity),
+        get_entity_component_class(quarchitect_game_data, entity),
+        get_entity_property_application_type(quarchitect_game_data, entity),
+        get_entity_properties(forge_game_data, entity),
+        children,
+    )
 }
 
 fn build_worldspawn_layer<'a>(
-- 
2.43.0


From 818f6a258b4019d4fd6f255e8a3f093a1739f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 24/29] fix: read every WAD mip level at its own offset instead
 of assuming they are contiguous

---
 src/wad/mod.rs | 89 +++++++++++++++++++-------------------------------
 1 file changed, 34 insertions(+), 55 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ac76dc5..362239b 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -15,6 +15,7 @@ pub use mip_texture::MipTexture;
 
 use entry::Entry;
 
+use mip_level::MipLevel;
 use palette::Palette;
 use std::{
     fs::File,
@@ -248,12 +249,6 @@ fn read_mip_data(
                 Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
             };
 
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                entry.offset as u64 + miptex.offset1 as u64,
-            )) {
-                return Err(format!("Error seeking to miptex: {:?}", err));
-            }
-
             let file_size = match wad_file.metadata() {
                 Ok(metadata) => metadata.len(),
                 Err(err) => return Err(format!("Error reading WAD file size: {:?}", err)),
@@ -271,63 +266,47 @@ fn read_mip_data(
             let size3 = size2 / 4;
 
             let sizes = [size0, size1, size2, size3];
-            let sizes = Vec::from(&sizes[..mip_levels]);
-            let total_size = sizes.iter().sum();
-
-            let mut mipdata_buf = vec![0u8; total_size];
-
-            if let Err(err) = wad_file.read_exact(&mut mipdata_buf) {
-                return Err(format!(
-                    "Error reading mipdata for texture {:?}: {:?}",
-                    miptex, err
-                ));
-            }
-
-            let mip0_buf = &mipdata_buf[..size0];
+            let offsets = [
+                miptex.offset1,
+                miptex.offset2,
+                miptex.offset4,
+                miptex.offset8,
+            ];
+
+            let mut levels: Vec<MipLevel> = Vec::new();
+            for (i, (offset, size)) in offsets.iter().zip(&sizes).enumerate().take(mip_levels) {
+                if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
+                    entry.offset as u64 + *offset as u64,
+                )) {
+                    return Err(format!("Error seeking to mip level {}: {:?}", i, err));
+                }
 
-            let (_, mip0) = match mip_level::parser(size0)(mip0_buf) {
-                Ok(mip_level) => mip_level,
-                Err(err) => return Err(format!("Error parsing mip level 0: {:?}", err)),
-            };
+                let mut mip_buf = vec![0u8; *size];
 
-            let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..][..size1];
-                let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
-                    Ok(mip_level) => mip_level,
-                    Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
-                };
-                Some(mip1)
-            } else {
-                None
-            };
+                if let Err(err) = wad_file.read_exact(&mut mip_buf) {
+                    return Err(format!(
+                        "Error reading mip level {} for texture {:?}: {:?}",
+                        i, miptex, err
+                    ));
+                }
 
-            let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..][..size2];
-                let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
-                    Ok(mip_level) => mip_level,
-                    Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
-                };
-                Some(mip2)
-            } else {
-                None
-            };
+                match mip_level::parser(*size)(&mip_buf) {
+                    Ok((_, mip_level)) => levels.push(mip_level),
+                    Err(err) => return Err(format!("Error parsing mip level {}: {:?}", i, err)),
+                }
+            }
 
-            let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..][..size3];
-                let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
-                    Ok(mip_level) => mip_level,
-                    Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-                };
-                Some(mip3)
-            } else {
-                None
+            let mut levels = levels.into_iter();
+            let mip0 = match levels.next() {
+                Some(mip0) => mip0,
+                None => return Err(format!("No mip levels for texture {:?}", miptex)),
             };
 
             let mipdata = MipDataIndexed {
                 mip0,
-                mip1,
-                mip2,
-                mip3,
+                mip1: levels.next(),
+                mip2: levels.next(),
+                mip3: levels.next(),
             };
 
             let palette;
-- 
2.43.0


From 3eb98fc517319f1235543f72f4fae61d4aa161a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:47 +0000
Subject: [PATCH 25/29] fix: keep the corners of shallow and needle-like
 brushes, whose planes are nearly parallel

---
 src/geo_builder/brush_plane/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 08fb0f9..86d085a 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -2,6 +2,7 @@ use crate::Vector3;
 use crate::map::quake::BrushPlane;
 
 const CMP_EPSILON: f64 = 0.001;
+const DET_EPSILON: f64 = 0.00001;
 const SNAP: f64 = 1048576.0;
 
 // Corners are computed in double precision, as the error of single precision
@@ -49,7 +50,7 @@ pub fn intersect_brush_planes(
 
     let denom = dot(cross(n0, n1), n2);
 
-    if denom.is_nan() || denom < CMP_EPSILON {
+    if denom.is_nan() || denom < DET_EPSILON {
         return None;
     }
 
-- 
2.43.0


From 130f7726a16ef344532e21657b8353d9a3630afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:55 +0000
Subject: [PATCH 26/29] fix: a phong angle beyond half a turn smooths across
 every edge instead of fewer

---
 src/geo_builder/brush_plane/normals.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/normals.rs b/src/geo_builder/brush_plane/normals.rs
index 0aaba39..55f8ca3 100644
--- a/src/geo_builder/brush_plane/normals.rs
+++ b/src/geo_builder/brush_plane/normals.rs
@@ -20,7 +20,8 @@ fn phong_normal(
 ) -> Vector3 {
     if let Some(phong_angle) = phong_angle {
         if let Ok(phong_angle) = phong_angle.parse::<f32>() {
-            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
+            // Beyond half a turn the cosine would rise again
+            let threshold = ((phong_angle.clamp(0.0, 180.0) + 0.01) * ONE_DEGREE).cos();
             let mut normal = p0.normal();
             if p0.normal().dot(p1.normal()) > threshold {
                 normal += p1.normal()
-- 
2.43.0


From fc49fd9c9f3720b1012dd52fff1478aba1f15a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 27/29] fix: a plane that only touches its brush in an edge or
 corner has no face

---
 src/geo_builder/brush_plane/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 595fba2..7d223b9 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -62,6 +62,12 @@ pub fn build(
         })
         .collect();
 
+    // A plane that touches the brush in an edge or a corner only has no face
+    let unique_vertices = match unique_vertices.len() {
+        0..=2 => Vec::new(),
+        _ => unique_vertices,
+    };
+
     let center: Vector3 = unique_vertices
         .iter()
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.vertex)
-- 
2.43.0


From 76b917ab6cf6158628d97fe6cdd37a12073451d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 28/29] fix: planes without a face do not pull the brush centre
 towards the world origin

---
 src/geo_builder/brush/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geo_builder/brush/mod.rs b/src/geo_builder/brush/mod.rs
index 13f8947..ca26982 100644
--- a/src/geo_builder/brush/mod.rs
+++ b/src/geo_builder/brush/mod.rs
@@ -17,13 +17,18 @@ pub fn build(textures: &TextureInfo, entity: &Entity, brush: &Brush) -> Geometry
         .map(|plane| brush_plane::build(textures, entity, planes, plane))
         .collect();
 
-    // Calculate center
-    let center = plane_geometry
+    // Calculate center from the planes that have a face
+    let faces: Vec<&brush_plane::Geometry> = plane_geometry
+        .iter()
+        .filter(|plane_geometry| !plane_geometry.vertices.is_empty())
+        .collect();
+
+    let center = faces
         .iter()
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
             acc + plane_geometry.center
         })
-        / plane_geometry.len().max(1) as f32;
+        / faces.len().max(1) as f32;
 
     Geometry::new(center, plane_geometry)
 }
-- 
2.43.0


From 0dd6c22daf901f73e54c7471eec42d68e6ed71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 29/29] fix: brushes that enclose nothing do not pull the
 entity centre towards the world origin

---
 src/geo_builder/brush/geometry.rs |  6 ++++++
 src/geo_builder/entity/mod.rs     | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush/geometry.rs b/src/geo_builder/brush/geometry.rs
index 1b3b9f3..c32834a 100644
--- a/src/geo_builder/brush/geometry.rs
+++ b/src/geo_builder/brush/geometry.rs
@@ -14,4 +14,10 @@ impl<'a> Geometry {
             plane_geometry
         }
     }
+
+    pub fn is_empty(&self) -> bool {
+        self.plane_geometry
+            .iter()
+            .all(|plane_geometry| plane_geometry.vertices.is_empty())
+    }
 }
diff --git a/src/geo_builder/entity/mod.rs b/src/geo_builder/entity/mod.rs
index 57654ae..96fc52e 100644
--- a/src/geo_builder/entity/mod.rs
+++ b/src/geo_builder/entity/mod.rs
@@ -27,10 +27,16 @@ pub fn build(textures: &TextureInfo, entity: &Entity) -> Geometry {
             Vector3::new(x, y, z)
         }
         None => {
-            brush_geometry
+            // Brushes that enclose nothing have no center
+            let solids: Vec<&brush::Geometry> = brush_geometry
+                .iter()
+                .filter(|brush_geometry| !brush_geometry.is_empty())
+                .collect();
+
+            solids
                 .iter()
                 .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.center)
-                / (brush_geometry.len().max(1) as f32)
+                / (solids.len().max(1) as f32)
         }
     };
 
-- 
2.43.0

