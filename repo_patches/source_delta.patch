From 42dc8af2b5d9ae6b3887bab976fca2e13c3ac7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 01/51] fix: bitmap data containing the bytes ALTV no longer
 corrupts the image

---
 src/vpx/biff.rs  | 19 +++++++++++++++++++
 src/vpx/image.rs |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 2f18fc0..9e1c242 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -484,6 +484,25 @@ impl<'a> BiffReader<'a> {
         }
     }
 
+    /// Read the bytes up to the given record header (record size followed by the tag) and
+    /// position the reader at the start of that header.
+    ///
+    /// As opposed to [`Self::data_until`] this can be used for raw data that contains the
+    /// bytes of the tag.
+    pub(crate) fn data_until_header(&mut self, record_header: &[u8; 8]) -> Vec<u8> {
+        let remaining = &self.data[self.pos..];
+        let Some(len) = remaining
+            .windows(record_header.len())
+            .position(|window| window == record_header)
+        else {
+            panic!("Record header {record_header:?} not found");
+        };
+        let data = remaining[..len].to_vec();
+        self.pos += len;
+        self.bytes_in_record_remaining = 0;
+        data
+    }
+
     pub fn data_until(&mut self, tag: &[u8]) -> Vec<u8> {
         // read bytes until we see tag and return it, put pos to the beginning of the tag
         let mut pos = self.pos;
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 70921b7..d849c94 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -396,7 +396,7 @@ fn read(reader: &mut BiffReader) -> ImageData {
             "BITS" => {
                 // these have zero as length
                 // read all the data until the next expected tag
-                let data = reader.data_until("ALTV".as_bytes());
+                let data = reader.data_until_header(b"\x08\x00\x00\x00ALTV");
                 //let reader = std::io::Cursor::new(data);
 
                 // uncompressed = zlib.decompress(image_data.data[image_data.pos:]) #, wbits=9)
-- 
2.43.0


From 891ca934f3ce5b18e0a2262ad88e17a4c0a412bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 02/51] fix: EFSS following CLMO is not the 10.8.0 beta 1-4
 record order

---
 src/vpx/gamedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/gamedata.rs b/src/vpx/gamedata.rs
index 9834893..32f1c8f 100644
--- a/src/vpx/gamedata.rs
+++ b/src/vpx/gamedata.rs
@@ -2115,7 +2115,8 @@ pub fn read_all_gamedata_records(input: &[u8], version: &Version) -> GameData {
             "SCLY" => gamedata.bg_scale_y_desktop = reader.get_f32(),
             "SCLZ" => gamedata.bg_scale_z_desktop = reader.get_f32(),
             "EFSS" => {
-                if version.u32() == 1080 && previous_tag != "BOTM" {
+                // the optional CLMO record is written in between BOTM and EFSS
+                if version.u32() == 1080 && previous_tag != "BOTM" && previous_tag != "CLMO" {
                     gamedata.is_10_8_0_beta1_to_beta4 = true;
                 }
                 gamedata.bg_enable_fss = Some(reader.get_bool())
-- 
2.43.0


From 962cb2891a18402946fc52ed47f4870b5dbc6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 03/51] fix: images and sounds with equal or hostile names are
 extracted to safe, distinct files

---
 src/vpx/expanded/images.rs | 33 ++++++++-------------------
 src/vpx/expanded/sounds.rs | 33 ++++++++-------------------
 src/vpx/expanded/util.rs   | 46 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+), 48 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 17d7245..de49e7b 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -4,13 +4,12 @@ use crate::filesystem::FileSystem;
 use crate::vpx::image::{ImageData, ImageDataJson, swap_red_and_blue, vpx_image_to_dynamic_image};
 use crate::vpx::lzw::to_lzw_blocks;
 use log::{debug, info, warn};
-use std::collections::HashSet;
 use std::ffi::OsStr;
 use std::io::{self, BufRead, Seek, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileStems, component_file_name, read_json};
 
 struct ImageBmp {
     width: u32,
@@ -27,8 +26,7 @@ pub(super) fn write_images<P: AsRef<Path>>(
 
     let images_index_path = expanded_dir.as_ref().join("images.json");
     let mut images_index_file = fs.create_buffered_file(&images_index_path)?;
-    let mut image_names_lower: HashSet<String> = HashSet::new();
-    let mut image_names_dupe_counter = 0;
+    let mut file_stems = UniqueFileStems::default();
     let mut json_images = Vec::with_capacity(images.len());
     let images_list: io::Result<Vec<(String, &ImageData)>> = images
         .iter()
@@ -43,28 +41,15 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 image.height
             );
             let mut json = ImageDataJson::from_image_data(image);
-            let name_sanitized = sanitize_filename(&image.name);
-            if name_sanitized != image.name {
+            let file_stem = file_stems.file_stem(&image.name);
+            if file_stem != image.name {
                 info!(
-                    "Image name {} contained invalid characters, sanitized to {}",
-                    image.name, name_sanitized
+                    "Image name {} is not a valid or unique file name, using {}",
+                    image.name, file_stem
                 );
-                json.name_dedup = Some(name_sanitized.clone());
+                json.name_dedup = Some(file_stem.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if image_names_lower.contains(&lower_name) {
-                image_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", image.name, image_names_dupe_counter);
-                info!(
-                    "Image name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
-                );
-                json.name_dedup = Some(name_dedup);
-            }
-            image_names_lower.insert(lower_name);
-
-            let actual_name = json.name_dedup.as_ref().unwrap_or(&image.name);
-            let file_name = format!("{}.{}", actual_name, image.ext());
+            let file_name = component_file_name(&file_stem, &image.ext());
 
             if let Some(jpeg) = &image.jpeg {
                 // Only if the actual image dimensions are different from
@@ -261,7 +246,7 @@ pub(super) fn read_images<P: AsRef<Path>>(
                     .name_dedup
                     .as_ref()
                     .unwrap_or(&image_data_json.name);
-                let full_file_name = format!("{}.{}", file_name, image_data_json.ext());
+                let full_file_name = component_file_name(file_name, &image_data_json.ext());
                 let mut file_path = images_dir.join(&full_file_name);
 
                 let mut new_extension = None;
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index be8af44..dce5862 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -3,12 +3,11 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::sound::{SoundData, SoundDataJson, read_sound, write_sound};
 use log::info;
-use std::collections::HashSet;
 use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileStems, component_file_name, read_json};
 
 pub(super) fn write_sounds<P: AsRef<Path>>(
     sounds: &[SoundData],
@@ -17,35 +16,21 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let sounds_index_path = expanded_dir.as_ref().join("sounds.json");
     let mut sounds_index_file = fs.create_buffered_file(&sounds_index_path)?;
-    let mut sound_names_lower: HashSet<String> = HashSet::new();
-    let mut sound_names_dupe_counter = 0;
+    let mut file_stems = UniqueFileStems::default();
     let mut json_sounds = Vec::with_capacity(sounds.len());
     let sounds: Vec<(String, &SoundData)> = sounds
         .iter()
         .map(|sound| {
             let mut json = SoundDataJson::from_sound_data(sound);
-            let name_sanitized = sanitize_filename(&sound.name);
-            if name_sanitized != sound.name {
+            let file_stem = file_stems.file_stem(&sound.name);
+            if file_stem != sound.name {
                 info!(
-                    "Sound name {} contained invalid characters, sanitized to {}",
-                    sound.name, name_sanitized
+                    "Sound name {} is not a valid or unique file name, using {}",
+                    sound.name, file_stem
                 );
-                json.name_dedup = Some(name_sanitized.clone());
+                json.name_dedup = Some(file_stem.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if sound_names_lower.contains(&lower_name) {
-                sound_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", sound.name, sound_names_dupe_counter);
-                info!(
-                    "Sound name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
-                );
-                json.name_dedup = Some(name_dedup);
-            }
-            sound_names_lower.insert(lower_name);
-
-            let actual_name = json.name_dedup.as_ref().unwrap_or(&name_sanitized);
-            let file_name = format!("{}.{}", actual_name, sound.ext());
+            let file_name = component_file_name(&file_stem, &sound.ext());
             json_sounds.push(json);
             (file_name, sound)
         })
@@ -89,7 +74,7 @@ pub(super) fn read_sounds<P: AsRef<Path>>(
         .map(|sound_data_json| {
             let mut sound = sound_data_json.to_sound_data();
             let file_name = sound_data_json.name_dedup.as_ref().unwrap_or(&sound.name);
-            let full_file_name = format!("{}.{}", file_name, sound.ext());
+            let full_file_name = component_file_name(file_name, &sound.ext());
             let file_path = sounds_dir.join(full_file_name);
             if fs.exists(&file_path) {
                 let sound_data = fs.read_file(&file_path)?;
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 9dc8f95..d0e4de8 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -2,6 +2,7 @@
 
 use crate::filesystem::FileSystem;
 use serde::de;
+use std::collections::HashSet;
 use std::io;
 use std::path::Path;
 
@@ -14,6 +15,51 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// Longest part of a component name that ends up in a file name, in bytes.
+/// Leaves room for a suffix and an extension within the 255 bytes most file systems allow.
+const MAX_FILE_STEM_LEN: usize = 200;
+const MAX_FILE_EXT_LEN: usize = 32;
+
+/// Cuts a string to at most `max_len` bytes
+pub(super) fn truncate_utf8(mut s: String, max_len: usize) -> String {
+    if s.len() > max_len {
+        let mut end = max_len;
+        while !s.is_char_boundary(end) {
+            end -= 1;
+        }
+        s.truncate(end);
+    }
+    s
+}
+
+/// The file name a component is stored under.
+///
+/// The extension comes from the original path stored in the vpx file and can not be trusted
+pub(super) fn component_file_name(file_stem: &str, ext: &str) -> String {
+    let ext = truncate_utf8(sanitize_filename(ext), MAX_FILE_EXT_LEN);
+    format!("{file_stem}.{ext}")
+}
+
+/// Hands out file names (without extension) that are valid and unique, also on case-insensitive
+/// file systems.
+#[derive(Default)]
+pub(super) struct UniqueFileStems {
+    used_lowercase: HashSet<String>,
+    dupe_counter: usize,
+}
+
+impl UniqueFileStems {
+    pub(super) fn file_stem(&mut self, name: &str) -> String {
+        let sanitized = truncate_utf8(sanitize_filename(name), MAX_FILE_STEM_LEN);
+        let mut stem = sanitized.clone();
+        while !self.used_lowercase.insert(stem.to_lowercase()) {
+            self.dupe_counter += 1;
+            stem = format!("{}_dedup{}", sanitized, self.dupe_counter);
+        }
+        stem
+    }
+}
+
 /// Read and parse a JSON file from the filesystem
 pub(super) fn read_json<P: AsRef<Path>, T>(json_path: P, fs: &dyn FileSystem) -> io::Result<T>
 where
-- 
2.43.0


From 438e78ac7be4e425decbd095e17ffbe9be65a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 04/51] fix: fonts with equal file names no longer overwrite
 each other on extraction

---
 src/vpx/expanded/fonts.rs | 45 ++++++++++++++++++++++++---------------
 src/vpx/font.rs           |  6 +++++-
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 40396ee..27d9c71 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -7,7 +7,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileStems, component_file_name, read_json, sanitize_filename};
 
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
@@ -16,19 +16,31 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let fonts_json_path = expanded_dir.as_ref().join("fonts.json");
     let mut fonts_index_file = fs.create_buffered_file(&fonts_json_path)?;
-    let fonts_index: Vec<FontDataJson> = fonts.iter().map(FontDataJson::from_font_data).collect();
+    let mut file_stems = UniqueFileStems::default();
+    let mut fonts_index: Vec<FontDataJson> = Vec::with_capacity(fonts.len());
+    let mut file_names: Vec<String> = Vec::with_capacity(fonts.len());
+    for font in fonts {
+        let mut json = FontDataJson::from_font_data(font);
+        let file_stem = file_stems.file_stem(&font.name);
+        file_names.push(component_file_name(&file_stem, &font.ext()));
+        if file_stem != sanitize_filename(&font.name) {
+            json.name_dedup = Some(file_stem);
+        }
+        fonts_index.push(json);
+    }
     serde_json::to_writer_pretty(&mut fonts_index_file, &fonts_index)?;
     fonts_index_file.flush()?;
 
     let fonts_dir = expanded_dir.as_ref().join("fonts");
     fs.create_dir_all(&fonts_dir)?;
-    fonts.iter().try_for_each(|font| {
-        let sanitized_name = sanitize_filename(&font.name);
-        let file_name = format!("{}.{}", sanitized_name, font.ext());
-        let font_path = fonts_dir.join(file_name);
-        let mut file = fs.create_file(&font_path)?;
-        file.write_all(&font.data)
-    })?;
+    fonts
+        .iter()
+        .zip(file_names)
+        .try_for_each(|(font, file_name)| {
+            let font_path = fonts_dir.join(file_name);
+            let mut file = fs.create_file(&font_path)?;
+            file.write_all(&font.data)
+        })?;
     Ok(())
 }
 
@@ -42,16 +54,15 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         return Ok(vec![]);
     }
     let fonts_json: Vec<FontDataJson> = read_json(fonts_index_path, fs)?;
-    let fonts_index: Vec<FontData> = fonts_json
-        .iter()
-        .map(|font_data_json| font_data_json.to_font_data())
-        .collect();
     let fonts_dir = expanded_dir.as_ref().join("fonts");
-    let fonts: io::Result<Vec<FontData>> = fonts_index
+    let fonts: io::Result<Vec<FontData>> = fonts_json
         .into_iter()
-        .map(|mut font| {
-            let sanitized_name = sanitize_filename(&font.name);
-            let file_name = format!("{}.{}", sanitized_name, font.ext());
+        .map(|font_json| {
+            let mut font = font_json.to_font_data();
+            let file_stem = font_json
+                .name_dedup
+                .unwrap_or_else(|| sanitize_filename(&font_json.name));
+            let file_name = component_file_name(&file_stem, &font.ext());
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 3b195aa..456397d 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -14,8 +14,11 @@ pub struct FontData {
 
 #[derive(Debug, PartialEq, Serialize, Deserialize)]
 pub(crate) struct FontDataJson {
-    name: String,
+    pub(crate) name: String,
     path: String,
+    /// In case we have a duplicate name or the file name is not simply derived from the name
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub(crate) name_dedup: Option<String>,
 }
 
 impl FontDataJson {
@@ -23,6 +26,7 @@ impl FontDataJson {
         Self {
             name: font_data.name.clone(),
             path: font_data.path.clone(),
+            name_dedup: None,
         }
     }
     pub fn to_font_data(&self) -> FontData {
-- 
2.43.0


From 0fab504ffa9272d3d6fb907c5c7f4308c1d282d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 05/51] fix: item file names no longer clash with the animation
 frames of other primitives

---
 src/vpx/expanded/gameitems.rs | 52 ++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 948f7a6..ee3717b 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -11,7 +11,7 @@ use std::path::Path;
 use tracing::instrument;
 
 use super::primitives::{read_gameitem_binaries, write_gameitem_binaries};
-use super::util::read_json;
+use super::util::{read_json, truncate_utf8};
 use super::{ExpandOptions, WriteError};
 
 /// Since it's common to change layer visibility we don't want that to cause a
@@ -31,35 +31,54 @@ pub(super) struct GameItemInfoJson {
     pub(super) editor_layer_visibility: Option<bool>,
 }
 
+/// Longest item name that ends up in a file name, in bytes. Leaves room for the type, a suffix and
+/// an extension within the 255 bytes most file systems allow.
+const MAX_NAME_LEN: usize = 180;
+
 /// Abstraction for making sure file names are unique
 #[derive(Default)]
 struct FileNameGen {
     used_names_lowercase: HashSet<String>,
+    /// Names `x` for which a name `x_anim_<digits>` is used
+    used_animation_bases: HashSet<String>,
 }
 
 impl FileNameGen {
     fn ensure_unique(&mut self, file_name: String) -> String {
-        let lower_name = file_name.to_lowercase();
-        if !self.used_names_lowercase.contains(&lower_name) {
-            self.used_names_lowercase.insert(lower_name.clone());
-            return file_name;
-        }
-
-        let mut counter = 1;
-        let mut unique_name;
-        loop {
+        let mut unique_name = file_name.clone();
+        let mut counter = 0;
+        while !self.claim(&unique_name.to_lowercase()) {
+            counter += 1;
             // There is a chance that the name we give is already used in one of the next files.
             // Therefore, we use double underscores to increase the chance it is unique.
             unique_name = format!("{file_name}__{counter}");
-            let unique_name_lower = unique_name.to_lowercase();
-            if !self.used_names_lowercase.contains(&unique_name_lower) {
-                self.used_names_lowercase.insert(unique_name_lower);
-                break;
-            }
-            counter += 1;
         }
         unique_name
     }
+
+    /// Claims a name, returns false if its files would clash with those of an earlier name.
+    /// Next to its own files a primitive owns all files for its animation frames.
+    fn claim(&mut self, lower_name: &str) -> bool {
+        let animation_base = animation_base(lower_name);
+        if self.used_names_lowercase.contains(lower_name)
+            || self.used_animation_bases.contains(lower_name)
+            || animation_base.is_some_and(|base| self.used_names_lowercase.contains(base))
+        {
+            return false;
+        }
+        self.used_names_lowercase.insert(lower_name.to_string());
+        if let Some(base) = animation_base {
+            self.used_animation_bases.insert(base.to_string());
+        }
+        true
+    }
+}
+
+/// For a name that looks like the animation frame of another primitive, the name of the other one
+fn animation_base(lower_name: &str) -> Option<&str> {
+    let (base, frame) = lower_name.rsplit_once("_anim_")?;
+    let is_frame = !frame.is_empty() && frame.chars().all(|c| c.is_ascii_digit());
+    (lower_name.starts_with("primitive.") && is_frame).then_some(base)
 }
 
 pub(super) fn write_gameitems<P: AsRef<Path>>(
@@ -139,6 +158,7 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+    let name = truncate_utf8(name, MAX_NAME_LEN);
     let file_name = format!("{}.{}", gameitem.type_name(), name);
     file_name_gen.ensure_unique(file_name)
 }
-- 
2.43.0


From 3e541b455ef732fa672ad2b51eaa692a517a94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 06/51] fix: extracting a wave sound keeps the stored byte rate

---
 src/vpx/sound.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index 79e2325..e856c18 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -178,11 +178,6 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
     } else {
         sound_data.wave_form.cb_size as u32 // 4
     };
-    //let bytes_per_sec = sound_data.wave_form.avg_bytes_per_sec;
-    let bytes_per_sec = sound_data.wave_form.samples_per_sec
-        * sound_data.wave_form.bits_per_sample as u32
-        * sound_data.wave_form.channels as u32
-        / 8;
     let extension_size = if sound_data.wave_form.format_tag == 1 {
         None
     } else {
@@ -197,7 +192,7 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
         samples_per_sec: sound_data.wave_form.samples_per_sec,
-        avg_bytes_per_sec: bytes_per_sec,
+        avg_bytes_per_sec: sound_data.wave_form.avg_bytes_per_sec,
         block_align: sound_data.wave_form.block_align,
         bits_per_sample: sound_data.wave_form.bits_per_sample,
         extension_size,
-- 
2.43.0


From a4c64b39e1c8a56e6acc19aa1316e87fd2420072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 07/51] fix: bitmaps and other images keep their storage kind
 whatever the extension of their path

---
 src/vpx/expanded/images.rs | 14 ++++----------
 src/vpx/image.rs           | 31 ++++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index de49e7b..33e7a3c 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -49,7 +49,7 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(file_stem.clone());
             }
-            let file_name = component_file_name(&file_stem, &image.ext());
+            let file_name = component_file_name(&file_stem, &json.file_ext());
 
             if let Some(jpeg) = &image.jpeg {
                 // Only if the actual image dimensions are different from
@@ -138,12 +138,6 @@ pub(super) fn write_images<P: AsRef<Path>>(
                         "Writing BMP data (compressed size: {} bytes)",
                         bits.lzw_compressed_data.len()
                     );
-                    assert_eq!(
-                        image.ext().to_ascii_lowercase(),
-                        "bmp",
-                        "Images stored as bits should have the extension .bmp"
-                    );
-
                     write_image_bmp(
                         &file_path,
                         &bits.lzw_compressed_data,
@@ -246,11 +240,11 @@ pub(super) fn read_images<P: AsRef<Path>>(
                     .name_dedup
                     .as_ref()
                     .unwrap_or(&image_data_json.name);
-                let full_file_name = component_file_name(file_name, &image_data_json.ext());
+                let full_file_name = component_file_name(file_name, &image_data_json.file_ext());
                 let mut file_path = images_dir.join(&full_file_name);
 
                 let mut new_extension = None;
-                if image_data_json.ext() == "png" && !fs.exists(&file_path) {
+                if image_data_json.file_ext() == "png" && !fs.exists(&file_path) {
                     let file_path_webp = images_dir.join(format!("{file_name}.webp"));
                     if fs.exists(&file_path_webp) {
                         new_extension = Some("webp");
@@ -260,7 +254,7 @@ pub(super) fn read_images<P: AsRef<Path>>(
 
                 if fs.exists(&file_path) {
                     let image_data = fs.read_file(&file_path)?;
-                    let image = if image_data_json.is_bmp() {
+                    let image = if image_data_json.is_bits() {
                         use crate::vpx::image::ImageDataBits;
                         let read_bmp = read_image_bmp(&image_data).map_err(|e| {
                             io::Error::new(
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index d849c94..1dd967f 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -199,6 +199,11 @@ pub(crate) struct ImageDataJson {
     #[serde(skip_serializing_if = "Option::is_none")]
     is_signed: Option<bool>,
 
+    /// Only set when this can not be derived from the file extension: normally images with the
+    /// extension bmp are stored as bits and all others as the original file.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    stored_as_bits: Option<bool>,
+
     // these are just for full compatibility with the original file
     #[serde(skip_serializing_if = "Option::is_none")]
     jpeg_name: Option<String>,
@@ -243,6 +248,10 @@ impl ImageDataJson {
             Some(image_data.alpha_test_value)
         };
 
+        let is_bits = image_data.bits.is_some();
+        let stored_as_bits =
+            (!image_data.is_link() && is_bits != has_bmp_ext(&image_data.ext())).then_some(is_bits);
+
         ImageDataJson {
             name: image_data.name.clone(),
             internal_name: image_data.internal_name.clone(),
@@ -253,6 +262,7 @@ impl ImageDataJson {
             alpha_test_value,
             is_opaque: image_data.is_opaque,
             is_signed: image_data.is_signed,
+            stored_as_bits,
             jpeg_name,
             jpeg_internal_name,
             jpeg_path,
@@ -263,7 +273,7 @@ impl ImageDataJson {
 
     pub fn to_image_data(&self, width: u32, height: u32, bits: Option<ImageDataBits>) -> ImageData {
         let mut jpeg = None;
-        if !self.is_bmp() && !self.is_link() {
+        if !self.is_bits() && !self.is_link() {
             let name = match &self.jpeg_name {
                 Some(name) => name.clone(),
                 None => self.name.clone(),
@@ -323,9 +333,24 @@ impl ImageDataJson {
         }
     }
 
-    pub(crate) fn is_bmp(&self) -> bool {
-        self.ext().eq_ignore_ascii_case("bmp")
+    pub(crate) fn is_bits(&self) -> bool {
+        self.stored_as_bits
+            .unwrap_or_else(|| has_bmp_ext(&self.ext()))
     }
+
+    /// Extension of the extracted file, bits are always extracted as a bitmap
+    pub(crate) fn file_ext(&self) -> String {
+        let ext = self.ext();
+        if self.is_bits() && !has_bmp_ext(&ext) {
+            "bmp".to_string()
+        } else {
+            ext
+        }
+    }
+}
+
+fn has_bmp_ext(ext: &str) -> bool {
+    ext.eq_ignore_ascii_case("bmp")
 }
 
 impl BiffWrite for ImageData {
-- 
2.43.0


From e69789454eff65889563a28c9a811f1de842ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 08/51] fix: extracting the same table always writes the same
 info.json and font styles

The order of custom properties and font styles in the extracted JSON was the
iteration order of a hash map.
---
 src/vpx/gameitem/font.rs | 11 ++++++-----
 src/vpx/jsonmodel.rs     |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/vpx/gameitem/font.rs b/src/vpx/gameitem/font.rs
index 77f1ac9..25b2571 100644
--- a/src/vpx/gameitem/font.rs
+++ b/src/vpx/gameitem/font.rs
@@ -1,6 +1,6 @@
 use crate::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
 use serde::{Deserialize, Serialize};
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 
 // from https://github.com/wine-mirror/wine/blob/f38a32e64c00600a5252fe0b9ca1ca42208bd6fe/dlls/oleaut32/olefont.c#L1546-L1566
 /************************************************************************
@@ -35,7 +35,7 @@ use std::collections::HashSet;
  * - 0x04: underline
  * - 0x08: strikethrough
  */
-#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, Hash, Eq)]
+#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, Hash, Eq, PartialOrd, Ord)]
 #[cfg_attr(test, derive(fake::Dummy))]
 pub enum FontStyle {
     Normal,
@@ -137,7 +137,8 @@ pub struct Font {
 pub(crate) struct FontJson {
     #[serde(skip_serializing_if = "Option::is_none")]
     charset: Option<u16>,
-    style: HashSet<FontStyle>,
+    // sorted, so that extracting the same table always gives the same file
+    style: BTreeSet<FontStyle>,
     weight: u16,
     size: u32,
     name: String,
@@ -150,7 +151,7 @@ impl FontJson {
         };
         Self {
             charset,
-            style: font.style.clone(),
+            style: font.style.iter().cloned().collect(),
             weight: font.weight,
             size: font.size,
             name: font.name.clone(),
@@ -159,7 +160,7 @@ impl FontJson {
     pub fn to_font(&self) -> Font {
         Font {
             charset: self.charset.unwrap_or(CHARSET_ANSI),
-            style: self.style.clone(),
+            style: self.style.iter().cloned().collect(),
             weight: self.weight,
             size: self.size,
             name: self.name.clone(),
diff --git a/src/vpx/jsonmodel.rs b/src/vpx/jsonmodel.rs
index dc1442c..5af5496 100644
--- a/src/vpx/jsonmodel.rs
+++ b/src/vpx/jsonmodel.rs
@@ -1,6 +1,6 @@
 use serde::{Deserialize, Serialize};
 use serde_json::to_value;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::vpx::collection::Collection;
 use crate::vpx::custominfotags::CustomInfoTags;
@@ -32,7 +32,8 @@ struct TableInfoJson {
     author_website: Option<String>,
     table_save_date: Option<String>,
     table_description: Option<String>,
-    properties: HashMap<String, String>,
+    // sorted, so that extracting the same table always gives the same file
+    properties: BTreeMap<String, String>,
     // since the ordering is important, we need to keep track of it
     properties_order: Vec<String>,
 }
@@ -54,7 +55,7 @@ pub fn info_to_json(
         author_website: table_info.author_website.clone(),
         table_save_date: table_info.table_save_date.clone(),
         table_description: table_info.table_description.clone(),
-        properties: table_info.properties.clone(),
+        properties: table_info.properties.clone().into_iter().collect(),
         properties_order: custom_info_tags.clone(),
     };
     to_value(info_json).unwrap()
@@ -78,7 +79,7 @@ pub fn json_to_info(
         author_website: info_json.author_website,
         table_save_date: info_json.table_save_date,
         table_description: info_json.table_description,
-        properties: info_json.properties,
+        properties: info_json.properties.into_iter().collect(),
     };
     let custom_info_tags = info_json.properties_order;
     Ok((table_info, custom_info_tags))
-- 
2.43.0


From a6571755e8c8b08fee54f28c4bca11b8a479ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 09/51] fix: control characters in primitive names no longer
 break the extracted OBJ file

---
 src/vpx/obj.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 4be9231..d858658 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -125,7 +125,9 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         vpx_vertices.len(),
         vpx_indices.len()
     ))?;
-    obj_writer.write_object_name(name)?;
+    // a line break in the name would start a new, invalid statement
+    let object_name = name.replace(char::is_control, "_");
+    obj_writer.write_object_name(&object_name)?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
         obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
-- 
2.43.0


From 664143325510e060a01315709b2402fe1791b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 10/51] fix: plunger springs with many loops no longer overflow
 the 16-bit vertex index

---
 src/vpx/mesh/plungers/mod.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index cdbfaa8..d5a6df3 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -658,7 +658,7 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
         let ny = bz * tx - bx * tz;
         let nz = bx * ty - by * tx;
 
-        let base_idx = vertices.len() as u16;
+        let base_idx = vertices.len() as i64;
 
         // Generate cross-section circle
         // VPinball spring uses tv 0.76-0.98 (bottom quarter of texture)
@@ -701,21 +701,13 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
 
         // Connect to next ring (if not last)
         if i < total_segments - 1 {
-            let next_base = base_idx + coil_segments as u16;
+            let next_base = base_idx + coil_segments as i64;
             for j in 0..coil_segments {
-                let j0 = j as u16;
-                let j1 = ((j + 1) % coil_segments) as u16;
-
-                indices.push(VpxFace::new(
-                    (base_idx + j0) as i64,
-                    (base_idx + j1) as i64,
-                    (next_base + j0) as i64,
-                ));
-                indices.push(VpxFace::new(
-                    (base_idx + j1) as i64,
-                    (next_base + j1) as i64,
-                    (next_base + j0) as i64,
-                ));
+                let j0 = j as i64;
+                let j1 = ((j + 1) % coil_segments) as i64;
+
+                indices.push(VpxFace::new(base_idx + j0, base_idx + j1, next_base + j0));
+                indices.push(VpxFace::new(base_idx + j1, next_base + j1, next_base + j0));
             }
         }
     }
-- 
2.43.0


From 08da2680eaad1f9b6eb77d5c86996b3eccec0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 11/51] fix: compacting a file named *.compacting no longer
 destroys it

---
 src/vpx/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 3ab9304..f414521 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -322,7 +322,11 @@ pub fn compact<P: AsRef<Path>>(path: P) -> io::Result<()> {
 /// Rewrites the whole compound file with the same data causing the file to be compacted.
 fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
     // requested to be added in https://github.com/mdsteele/rust-cfb/issues/55
-    let out_path: PathBuf = in_path.as_ref().with_extension("compacting");
+    let mut out_path: PathBuf = in_path.as_ref().with_extension("compacting");
+    if (in_path.as_ref().extension()).is_some_and(|e| e.eq_ignore_ascii_case("compacting")) {
+        // never write over the file we are reading, e.g. one left by an interrupted compaction
+        out_path = in_path.as_ref().with_extension("compacting.compacting");
+    }
     let mut original = cfb::open(&in_path)?;
     let version = original.version();
     let out_file = std::fs::OpenOptions::new()
-- 
2.43.0


From 47dc6c231b4b59238e84298ea6f2a9906016537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 12/51] fix: compacting keeps the state bits and time stamps of
 the table's entries

---
 src/vpx/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index f414521..b590060 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -336,22 +336,26 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         .truncate(true)
         .open(&out_path)?;
     let mut duplicate = CompoundFile::create_with_version(version, out_file)?;
-    let mut stream_paths = Vec::<PathBuf>::new();
+    let mut streams = Vec::<(PathBuf, u32)>::new();
     for entry in original.walk() {
         if entry.is_storage() {
             if !entry.is_root() {
                 duplicate.create_storage(entry.path())?;
             }
             duplicate.set_storage_clsid(entry.path(), *entry.clsid())?;
+            duplicate.set_created_time(entry.path(), entry.created())?;
+            duplicate.set_modified_time(entry.path(), entry.modified())?;
+            duplicate.set_state_bits(entry.path(), entry.state_bits())?;
         } else {
-            stream_paths.push(entry.path().to_path_buf());
+            streams.push((entry.path().to_path_buf(), entry.state_bits()));
         }
     }
-    for path in stream_paths.iter() {
+    for (path, state_bits) in streams.iter() {
         std::io::copy(
             &mut original.open_stream(path)?,
             &mut duplicate.create_new_stream(path)?,
         )?;
+        duplicate.set_state_bits(path, *state_bits)?;
     }
     duplicate.flush()?;
     std::fs::remove_file(&in_path)?;
-- 
2.43.0


From a999a6be81cc090bb533ac35ba35e987a532b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 13/51] fix: errors while flushing stream data are reported
 instead of dropped

---
 src/vpx/mod.rs       | 33 ++++++++++++++++++++-------------
 src/vpx/tableinfo.rs |  6 ++++--
 src/vpx/version.rs   |  3 ++-
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index b590060..30de69b 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -351,10 +351,10 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         }
     }
     for (path, state_bits) in streams.iter() {
-        std::io::copy(
-            &mut original.open_stream(path)?,
-            &mut duplicate.create_new_stream(path)?,
-        )?;
+        let mut stream = duplicate.create_new_stream(path)?;
+        std::io::copy(&mut original.open_stream(path)?, &mut stream)?;
+        stream.flush()?;
+        drop(stream);
         duplicate.set_state_bits(path, *state_bits)?;
     }
     duplicate.flush()?;
@@ -422,7 +422,7 @@ pub fn write(path: &Path, vpx: &VPX) -> io::Result<()> {
         .truncate(true)
         .open(path)?;
     let mut comp = CompoundFile::create(file)?;
-    let result = write_vpx(&mut comp, vpx);
+    let result = write_vpx(&mut comp, vpx).and_then(|()| comp.flush());
     info!("Wrote {}", path.file_name().unwrap().to_string_lossy());
     result
 }
@@ -487,7 +487,8 @@ pub fn new_minimal_vpx<P: AsRef<Path>>(vpx_file_path: P) -> io::Result<()> {
         .truncate(true)
         .open(&vpx_file_path)?;
     let mut comp = CompoundFile::create(file)?;
-    write_minimal_vpx(&mut comp)
+    write_minimal_vpx(&mut comp)?;
+    comp.flush()
 }
 
 fn write_minimal_vpx<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<()> {
@@ -622,7 +623,8 @@ fn read_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Ve
 fn write_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>, mac: &[u8]) -> io::Result<()> {
     let mac_path = Path::new(MAIN_SEPARATOR_STR).join("GameStg").join("MAC");
     let mut mac_stream = comp.create_stream(mac_path)?;
-    mac_stream.write_all(mac)
+    mac_stream.write_all(mac)?;
+    mac_stream.flush()
 }
 
 #[derive(Clone, Debug)]
@@ -831,9 +833,9 @@ fn write_game_data<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let mut game_data_stream = comp.create_stream(&game_data_path)?;
     let data = gamedata::write_all_gamedata_records(gamedata, version);
-    game_data_stream.write_all(&data)
-    // this flush was required before but now it's working without
-    // game_data_stream.flush()
+    game_data_stream.write_all(&data)?;
+    // dropping the stream would ignore errors
+    game_data_stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(gameitem_count = gamedata.gameitems_size))]
@@ -875,7 +877,8 @@ fn write_gameitem<F: Read + Write + Seek>(
 ) -> Result<(), Error> {
     let mut stream = comp.create_stream(path)?;
     let data = gameitem::write(gameitem);
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(sound_count = gamedata.sounds_size))]
@@ -922,6 +925,7 @@ fn write_sounds<F: Read + Write + Seek>(
         let mut writer = BiffWriter::new();
         sound::write(file_version, sound, &mut writer);
         stream.write_all(writer.get_data())?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -954,6 +958,7 @@ fn write_collections<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = collection::write(collection);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1004,7 +1009,7 @@ fn write_image<F: Read + Write + Seek>(
     let mut writer = BiffWriter::new();
     image.biff_write(&mut writer);
     stream.write_all(writer.get_data())?;
-    Ok(())
+    stream.flush()
 }
 
 #[derive(Debug, PartialEq, Clone)]
@@ -1120,6 +1125,7 @@ fn write_fonts<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = font::write(font);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1150,7 +1156,8 @@ fn write_custominfotags<F: Read + Write + Seek>(
 
     let data = custominfotags::write_custominfotags(tags);
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 /// Table dimensions for UV coordinate calculation
diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index 4252ed3..fb9bc06 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -308,7 +308,8 @@ fn write_stream_string<F: Read + Write + Seek>(
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
     let wide = encode_utf16le(str);
-    stream.write_all(&wide)
+    stream.write_all(&wide)?;
+    stream.flush()
 }
 
 fn read_stream_binary<F: Read + Seek>(
@@ -327,7 +328,8 @@ fn write_stream_binary<F: Read + Write + Seek>(
     bytes: &[u8],
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(bytes)
+    stream.write_all(bytes)?;
+    stream.flush()
 }
 
 #[cfg(test)]
diff --git a/src/vpx/version.rs b/src/vpx/version.rs
index c27125f..3ec4e8e 100644
--- a/src/vpx/version.rs
+++ b/src/vpx/version.rs
@@ -80,7 +80,8 @@ pub(crate) fn write_version<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let version_path = vpx_version_path();
     let mut stream = comp.create_stream(version_path)?;
-    write_version_data(version, &mut stream)
+    write_version_data(version, &mut stream)?;
+    stream.flush()
 }
 
 fn read_version_data<F: Read + Seek>(stream: &mut Stream<F>) -> io::Result<Version> {
-- 
2.43.0


From 35ff57a7eb7e9374570e4e4c78941b9ded1ba21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 14/51] fix: failing to read the table info is an error, not a
 panic

---
 src/vpx/tableinfo.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index fb9bc06..0800f51 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -214,7 +214,7 @@ pub(crate) fn read_tableinfo<F: Read + Seek>(
     let table_info_path = Path::new(MAIN_SEPARATOR_STR).join("TableInfo");
     let mut table_info = TableInfo::new();
 
-    let entries = comp.read_storage(table_info_path).unwrap();
+    let entries = comp.read_storage(table_info_path)?;
     // read all the entries in the entrues
     let paths: Vec<_> = entries
         .filter(|entry| entry.is_stream())
@@ -286,9 +286,9 @@ fn read_stream_string<F: Read + Seek>(
     comp: &mut CompoundFile<F>,
     path: &Path,
 ) -> Result<String, std::io::Error> {
-    let mut stream = comp.open_stream(path).unwrap();
+    let mut stream = comp.open_stream(path)?;
     let mut buffer = Vec::new();
-    stream.read_to_end(&mut buffer).unwrap();
+    stream.read_to_end(&mut buffer)?;
 
     match decode_utf16le(&buffer) {
         Ok(str) => Ok(str),
-- 
2.43.0


From 23fd3703ce07a64cb7124464d4a6607dfdd19200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 15/51] fix: a custom info tag without a stream of its own no
 longer breaks saving and verification

---
 src/vpx/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 30de69b..befeeac 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -772,7 +772,7 @@ fn generate_mac<F: Read + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Vec<u8
                     let cust_name = biff.get_string();
                     //println!("Hashing custom information block {}", cust_name);
                     let path = format!("TableInfo/{cust_name}");
-                    if comp.exists(&path) {
+                    if comp.is_stream(&path) {
                         let data = read_bytes_at(&path, comp)?;
                         hasher.update(&data);
                     }
-- 
2.43.0


From 93a2843c73a037fc45448b6cdf9e211a1a90342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:12 +0000
Subject: [PATCH 16/51] fix: exporting the same table as glTF always writes the
 same file

---
 src/vpx/export/gltf_export.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 20b3a3d..40716b2 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -129,7 +129,7 @@ use crate::vpx::{TableDimensions, VPX};
 use byteorder::{LittleEndian, WriteBytesExt};
 use log::{info, warn};
 use serde_json::{Value, json};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io;
 use std::path::Path;
 use vpx::mesh::decals::build_decal_mesh;
@@ -382,8 +382,8 @@ struct GltfMaterial {
 }
 
 /// Collect all materials from a VPX file
-fn collect_materials(vpx: &VPX) -> HashMap<String, GltfMaterial> {
-    let mut materials = HashMap::new();
+fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
+    let mut materials = BTreeMap::new();
 
     // Try new format first (10.8+)
     if let Some(ref mats) = vpx.gamedata.materials {
@@ -659,7 +659,7 @@ fn playfield_material(
     vpx: &VPX,
     playfield_image: &ImageData,
     playfield_material_name: &str,
-    materials: &HashMap<String, GltfMaterial>,
+    materials: &BTreeMap<String, GltfMaterial>,
     gltf_samplers: &mut Vec<serde_json::Value>,
     gltf_images: &mut Vec<serde_json::Value>,
     gltf_textures: &mut Vec<serde_json::Value>,
@@ -1923,7 +1923,7 @@ fn build_combined_gltf_payload(
     vpx: &VPX,
     meshes: &[NamedMesh],
     item_groups: Vec<ItemGroupInfo>,
-    materials: &HashMap<String, GltfMaterial>,
+    materials: &BTreeMap<String, GltfMaterial>,
     images: &[ImageData],
     playfield_image: Option<&ImageData>,
     playfield_material_name: &str,
@@ -2374,7 +2374,7 @@ fn build_combined_gltf_payload(
     let mut accessors = Vec::new();
 
     // Track layer groups: layer_name -> (layer_node_index, child_node_indices)
-    let mut layer_groups: HashMap<String, (usize, Vec<usize>)> = HashMap::new();
+    let mut layer_groups: BTreeMap<String, (usize, Vec<usize>)> = BTreeMap::new();
     // Track meshes without a layer (will be at root level)
     let mut root_node_indices: Vec<usize> = Vec::new();
     // Track grouped meshes (e.g., light bulb/socket/insert): group_name -> child node indices
-- 
2.43.0


From a1a6226f204528f6d73852bc4101499179c2b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 17/51] fix: keep NaN and infinite values of optional numbers
 when extracting

A plain Option<f32> is written to the JSON files as null when it is not
finite, which reads back as None: the value was silently dropped when the
extracted table was assembled.
---
 src/vpx/gamedata.rs           | 42 +++++++++++++++++++++++++++++++++++
 src/vpx/gameitem/bumper.rs    |  1 +
 src/vpx/gameitem/flasher.rs   |  5 +++++
 src/vpx/gameitem/flipper.rs   |  6 +++++
 src/vpx/gameitem/gate.rs      |  2 ++
 src/vpx/gameitem/hittarget.rs |  3 +++
 src/vpx/gameitem/kicker.rs    |  1 +
 src/vpx/gameitem/light.rs     |  2 ++
 src/vpx/gameitem/primitive.rs |  7 ++++++
 src/vpx/gameitem/ramp.rs      |  1 +
 src/vpx/gameitem/rubber.rs    |  2 ++
 src/vpx/gameitem/trigger.rs   |  1 +
 src/vpx/gameitem/wall.rs      |  4 ++++
 src/vpx/image.rs              |  1 +
 src/vpx/json.rs               | 21 ++++++++++++++++++
 15 files changed, 99 insertions(+)

diff --git a/src/vpx/gamedata.rs b/src/vpx/gamedata.rs
index 32f1c8f..040e121 100644
--- a/src/vpx/gamedata.rs
+++ b/src/vpx/gamedata.rs
@@ -1060,13 +1060,21 @@ pub(crate) struct GameDataJson {
     pub bg_scale_y_desktop: f32,
     pub bg_scale_z_desktop: f32,
     pub bg_enable_fss: Option<bool>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_view_horizontal_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_view_vertical_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_x_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_y_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_z_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_x_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_y_offset_desktop: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_z_offset_desktop: Option<f32>,
     pub bg_view_mode_fullscreen: Option<ViewLayoutMode>,
     pub bg_rotation_fullscreen: f32,
@@ -1079,32 +1087,56 @@ pub(crate) struct GameDataJson {
     pub bg_scale_x_fullscreen: f32,
     pub bg_scale_y_fullscreen: f32,
     pub bg_scale_z_fullscreen: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_view_horizontal_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_view_vertical_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_x_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_y_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_z_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_x_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_y_offset_fullscreen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_z_offset_fullscreen: Option<f32>,
     pub bg_view_mode_full_single_screen: Option<ViewLayoutMode>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_rotation_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_inclination_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_layback_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_fov_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_offset_x_full_single_screen: Option<f32>,
     pub bg_offset_y_full_single_screen: Option<F32WithNanInf>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_offset_z_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_scale_x_full_single_screen: Option<f32>,
     pub bg_scale_y_full_single_screen: Option<F32WithNanInf>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_scale_z_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_view_horizontal_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_view_vertical_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_x_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_y_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_top_z_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_x_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_y_offset_full_single_screen: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub bg_window_bottom_z_offset_full_single_screen: Option<f32>,
     pub override_physics: u32,
     pub override_physics_flipper: Option<bool>,
@@ -1125,8 +1157,11 @@ pub(crate) struct GameDataJson {
     pub zoom: f32,
     pub angle_tilt_max: f32,
     pub angle_tilt_min: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub stereo_max_separation: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub stereo_zero_parallax_displacement: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub stereo_offset: Option<f32>,
     pub overwrite_global_stereo3d: Option<bool>,
     pub image: String,
@@ -1143,7 +1178,9 @@ pub(crate) struct GameDataJson {
     pub screen_shot: String,
     pub display_backdrop: bool,
     pub glass_top_height: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub glass_bottom_height: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub table_height: Option<f32>,
     pub playfield_material: String,
     pub backdrop_color: Color,
@@ -1156,7 +1193,9 @@ pub(crate) struct GameDataJson {
     pub env_emission_scale: f32,
     pub global_emission_scale: f32,
     pub ao_scale: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub ssr_scale: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub ground_to_lockbar_height: Option<f32>,
     pub table_sound_volume: f32,
     pub table_music_volume: f32,
@@ -1166,7 +1205,9 @@ pub(crate) struct GameDataJson {
     pub playfield_reflection_strength: f32,
     pub use_trail_for_balls: Option<i32>,
     pub ball_decal_mode: bool,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub ball_playfield_reflection_strength: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub default_bulb_intensity_scale_on_ball: Option<f32>,
     pub ball_trail_strength: Option<u32>,
     pub user_detail_level: Option<u32>,
@@ -1186,6 +1227,7 @@ pub(crate) struct GameDataJson {
     //pub code: StringWithEncoding,
     pub locked: Option<u32>,
     #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     pub exposure: Option<f32>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub is_10_8_0_beta1_to_beta4: Option<bool>,
diff --git a/src/vpx/gameitem/bumper.rs b/src/vpx/gameitem/bumper.rs
index 681761f..0ea7bfc 100644
--- a/src/vpx/gameitem/bumper.rs
+++ b/src/vpx/gameitem/bumper.rs
@@ -71,6 +71,7 @@ struct BumperJson {
     timer: TimerData,
     threshold: f32,
     force: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     scatter: Option<f32>,
     // BSCT (added in ?)
     height_scale: f32,
diff --git a/src/vpx/gameitem/flasher.rs b/src/vpx/gameitem/flasher.rs
index 8aa80ff..e06290b 100644
--- a/src/vpx/gameitem/flasher.rs
+++ b/src/vpx/gameitem/flasher.rs
@@ -585,11 +585,16 @@ pub(crate) struct FlasherJson {
     is_dmd: Option<bool>,
     render_mode: Option<RenderMode>,
     render_style: Option<u32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     glass_roughness: Option<f32>,
     glass_ambient: Option<u32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     glass_pad_top: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     glass_pad_bottom: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     glass_pad_left: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     glass_pad_right: Option<f32>,
     image_src_link: Option<String>,
     display_texture: bool,
diff --git a/src/vpx/gameitem/flipper.rs b/src/vpx/gameitem/flipper.rs
index b3e8441..5a98401 100644
--- a/src/vpx/gameitem/flipper.rs
+++ b/src/vpx/gameitem/flipper.rs
@@ -350,18 +350,24 @@ pub(crate) struct FlipperJson {
     name: String,
     rubber_material: String,
     rubber_thickness_int: u32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     rubber_thickness: Option<f32>,
     rubber_height_int: u32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     rubber_height: Option<f32>,
     rubber_width_int: u32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     rubber_width: Option<f32>,
     strength: f32,
     elasticity: f32,
     elasticity_falloff: f32,
     friction: f32,
     ramp_up: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     scatter: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     torque_damping: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     torque_damping_angle: Option<f32>,
     flipper_radius_min: f32,
     is_visible: bool,
diff --git a/src/vpx/gameitem/gate.rs b/src/vpx/gameitem/gate.rs
index 2446af5..232d288 100644
--- a/src/vpx/gameitem/gate.rs
+++ b/src/vpx/gameitem/gate.rs
@@ -249,7 +249,9 @@ pub(crate) struct GateJson {
     angle_max: f32,
     angle_min: f32,
     friction: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     damping: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     gravity_factor: Option<f32>,
     is_visible: bool,
     name: String,
diff --git a/src/vpx/gameitem/hittarget.rs b/src/vpx/gameitem/hittarget.rs
index 4a162fd..e13f9be 100644
--- a/src/vpx/gameitem/hittarget.rs
+++ b/src/vpx/gameitem/hittarget.rs
@@ -321,8 +321,11 @@ struct HitTargetJson {
     friction: f32,
     scatter: f32,
     is_collidable: bool,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_top_old: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_top: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_below: Option<f32>,
     depth_bias: f32,
     is_reflection_enabled: bool,
diff --git a/src/vpx/gameitem/kicker.rs b/src/vpx/gameitem/kicker.rs
index 7c4ca10..bbf568f 100644
--- a/src/vpx/gameitem/kicker.rs
+++ b/src/vpx/gameitem/kicker.rs
@@ -181,6 +181,7 @@ struct KickerJson {
     kicker_type: KickerType,
     scatter: f32,
     hit_accuracy: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     hit_height: Option<f32>,
     orientation: f32,
     fall_through: bool,
diff --git a/src/vpx/gameitem/light.rs b/src/vpx/gameitem/light.rs
index ae809cf..5c964a3 100644
--- a/src/vpx/gameitem/light.rs
+++ b/src/vpx/gameitem/light.rs
@@ -707,10 +707,12 @@ impl_shared_attributes!(Light);
 #[derive(Debug, Serialize, Deserialize)]
 struct LightJson {
     center: Vertex2D,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     height: Option<f32>,
     falloff_radius: f32,
     falloff_power: f32,
     state_u32: u32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     state: Option<f32>,
     color: Color,
     color2: Color,
diff --git a/src/vpx/gameitem/primitive.rs b/src/vpx/gameitem/primitive.rs
index b221133..baa874d 100644
--- a/src/vpx/gameitem/primitive.rs
+++ b/src/vpx/gameitem/primitive.rs
@@ -482,13 +482,17 @@ struct PrimitiveJson {
     friction: f32,
     scatter: f32,
     edge_factor_ui: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     collision_reduction_factor: Option<f32>,
     is_collidable: bool,
     is_toy: bool,
     use_3d_mesh: bool,
     static_rendering: bool,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_top_old: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_top: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_below: Option<f32>,
     is_reflection_enabled: Option<bool>,
     backfaces_enabled: Option<bool>,
@@ -502,12 +506,15 @@ struct PrimitiveJson {
     depth_bias: f32,
     add_blend: Option<bool>,
     use_depth_mask: Option<bool>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     alpha: Option<f32>,
     color: Option<Color>,
     light_map: Option<String>,
     reflection_probe: Option<String>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     reflection_strength: Option<f32>,
     refraction_probe: Option<String>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     refraction_thickness: Option<f32>,
     #[serde(skip_serializing_if = "Option::is_none")]
     part_group_name: Option<String>,
diff --git a/src/vpx/gameitem/ramp.rs b/src/vpx/gameitem/ramp.rs
index de3a550..cb7cbe8 100644
--- a/src/vpx/gameitem/ramp.rs
+++ b/src/vpx/gameitem/ramp.rs
@@ -211,6 +211,7 @@ struct RampJson {
     left_wall_height_visible: f32,
     right_wall_height_visible: f32,
     hit_event: Option<bool>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     threshold: Option<f32>,
     elasticity: f32,
     friction: f32,
diff --git a/src/vpx/gameitem/rubber.rs b/src/vpx/gameitem/rubber.rs
index 81de854..bc43d30 100644
--- a/src/vpx/gameitem/rubber.rs
+++ b/src/vpx/gameitem/rubber.rs
@@ -57,6 +57,7 @@ impl_shared_attributes!(Rubber);
 #[derive(Debug, PartialEq, Serialize, Deserialize)]
 struct RubberJson {
     height: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     hit_height: Option<f32>,
     thickness: i32,
     hit_event: bool,
@@ -71,6 +72,7 @@ struct RubberJson {
     scatter: f32,
     is_collidable: bool,
     is_visible: bool,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     radb: Option<f32>,
     static_rendering: bool,
     show_in_editor: bool,
diff --git a/src/vpx/gameitem/trigger.rs b/src/vpx/gameitem/trigger.rs
index 9f78517..3fe6e48 100644
--- a/src/vpx/gameitem/trigger.rs
+++ b/src/vpx/gameitem/trigger.rs
@@ -245,6 +245,7 @@ struct TriggerJson {
     center: Vertex2D,
     radius: f32,
     rotation: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     wire_thickness: Option<f32>,
     scale_x: f32,
     scale_y: f32,
diff --git a/src/vpx/gameitem/wall.rs b/src/vpx/gameitem/wall.rs
index e45e4f6..91206dc 100644
--- a/src/vpx/gameitem/wall.rs
+++ b/src/vpx/gameitem/wall.rs
@@ -116,14 +116,18 @@ struct WallJson {
     slingshot_force: f32,
     slingshot_threshold: f32,
     elasticity: f32,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     elasticity_falloff: Option<f32>,
     friction: f32,
     scatter: f32,
     is_top_bottom_visible: bool,
     slingshot_animation: bool,
     is_side_visible: bool,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_top_old: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_top: Option<f32>,
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     disable_lighting_below: Option<f32>,
     is_reflection_enabled: Option<bool>,
     physics_material: Option<String>,
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 1dd967f..6422545 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -193,6 +193,7 @@ pub(crate) struct ImageDataJson {
     #[serde(skip_serializing_if = "Option::is_none")]
     link: Option<u32>,
     #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(default, with = "crate::vpx::json::option_f32_nan_inf")]
     alpha_test_value: Option<f32>,
     #[serde(skip_serializing_if = "Option::is_none")]
     is_opaque: Option<bool>,
diff --git a/src/vpx/json.rs b/src/vpx/json.rs
index b3e160b..59a9ccd 100644
--- a/src/vpx/json.rs
+++ b/src/vpx/json.rs
@@ -93,6 +93,27 @@ where
     }
 }
 
+/// For optional `f32` fields, use with `#[serde(default, with = "...")]`.
+/// A plain `Option<f32>` would write NaN and Inf as `null`, which reads back as `None`.
+pub(crate) mod option_f32_nan_inf {
+    use super::*;
+
+    pub(crate) fn serialize<S>(value: &Option<f32>, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        value.map(F32WithNanInf::from).serialize(serializer)
+    }
+
+    pub(crate) fn deserialize<'de, D>(deserializer: D) -> Result<Option<f32>, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let value = Option::<F32WithNanInf>::deserialize(deserializer)?;
+        Ok(value.map(f32::from))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 37693412ac749e330594403c240febf570e8d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 18/51] fix: reject unknown trigger shapes instead of changing
 them to WireA

All other enumerations reject values they do not know, a trigger's shape was
silently replaced when the table was read and written again.
---
 src/vpx/gameitem/trigger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/gameitem/trigger.rs b/src/vpx/gameitem/trigger.rs
index 3fe6e48..51a8147 100644
--- a/src/vpx/gameitem/trigger.rs
+++ b/src/vpx/gameitem/trigger.rs
@@ -39,7 +39,7 @@ impl From<u32> for TriggerShape {
             5 => TriggerShape::WireC,
             6 => TriggerShape::WireD,
             7 => TriggerShape::Inder,
-            _ => TriggerShape::WireA,
+            _ => panic!("Invalid TriggerShape value {value}"),
         }
     }
 }
-- 
2.43.0


From 6774b1552c1c880dc6c4eab51ca9ebae91aa23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 19/51] fix: default lights' blink interval and gates'
 direction as documented

A light without a BINT record had an interval of 0 and a gate without a TWWA
record was one-way, both documented (and in Visual Pinball) as 125 ms and
two-way.
---
 src/vpx/gameitem/gate.rs  | 2 +-
 src/vpx/gameitem/light.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vpx/gameitem/gate.rs b/src/vpx/gameitem/gate.rs
index 232d288..adad14f 100644
--- a/src/vpx/gameitem/gate.rs
+++ b/src/vpx/gameitem/gate.rs
@@ -219,7 +219,7 @@ impl Default for Gate {
             gravity_factor: None, //0.25,
             is_visible: true,
             name: Default::default(),
-            two_way: false,
+            two_way: true,
             is_reflection_enabled: None, //true,
             gate_type: None,             //Some(GateType::Plate),
             is_locked: false,
diff --git a/src/vpx/gameitem/light.rs b/src/vpx/gameitem/light.rs
index 5c964a3..55d0516 100644
--- a/src/vpx/gameitem/light.rs
+++ b/src/vpx/gameitem/light.rs
@@ -868,7 +868,7 @@ impl Default for Light {
         let timer = TimerData::default();
         let blink_pattern: String = "10".to_owned();
         let image: String = Default::default();
-        let blink_interval: u32 = Default::default();
+        let blink_interval: u32 = 125;
         let intensity: f32 = 1.0;
         let transmission_scale: f32 = 0.5;
         let surface: String = Default::default();
-- 
2.43.0


From 3cb757ac0a046c79bcde58af3eed53a30e1ce43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:18 +0000
Subject: [PATCH 20/51] fix: find the end of bitmap data by decoding it,
 whatever record follows

---
 src/vpx/biff.rs  | 23 +++++++++--------------
 src/vpx/image.rs | 36 +++++++++++++++++++++++++++++++++---
 src/vpx/lzw.rs   | 27 ++++++++++++++++++++++++++-
 3 files changed, 68 insertions(+), 18 deletions(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 9e1c242..80d0de6 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -484,20 +484,15 @@ impl<'a> BiffReader<'a> {
         }
     }
 
-    /// Read the bytes up to the given record header (record size followed by the tag) and
-    /// position the reader at the start of that header.
-    ///
-    /// As opposed to [`Self::data_until`] this can be used for raw data that contains the
-    /// bytes of the tag.
-    pub(crate) fn data_until_header(&mut self, record_header: &[u8; 8]) -> Vec<u8> {
-        let remaining = &self.data[self.pos..];
-        let Some(len) = remaining
-            .windows(record_header.len())
-            .position(|window| window == record_header)
-        else {
-            panic!("Record header {record_header:?} not found");
-        };
-        let data = remaining[..len].to_vec();
+    /// The data that follows the current position, regardless of record boundaries.
+    pub(crate) fn remaining_data(&self) -> &'a [u8] {
+        &self.data[self.pos..]
+    }
+
+    /// Take raw data that is stored outside its record and position the reader at the start of
+    /// the next record.
+    pub(crate) fn take_raw_data(&mut self, len: usize) -> Vec<u8> {
+        let data = self.data[self.pos..self.pos + len].to_vec();
         self.pos += len;
         self.bytes_in_record_remaining = 0;
         data
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 6422545..4c67ee4 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -1,5 +1,5 @@
 use super::biff::{self, BiffRead, BiffReader, BiffWrite, BiffWriter};
-use crate::vpx::lzw::from_lzw_blocks;
+use crate::vpx::lzw::{from_lzw_blocks, lzw_blocks_len};
 use image::DynamicImage;
 use log::warn;
 use regex::Regex;
@@ -385,6 +385,35 @@ impl Default for ImageData {
     }
 }
 
+/// Determine the length of the compressed data that follows the BITS record.
+fn bits_data_len(data: &[u8]) -> usize {
+    if let Some(len) = lzw_blocks_len(data) {
+        match &data[len..] {
+            rest if is_record_header(rest) => return len,
+            // an empty block that terminates the data
+            [0, rest @ ..] if is_record_header(rest) => return len + 1,
+            _ => {}
+        }
+    }
+    // the data has no proper end, read up to the record that is usually next
+    data.windows(8)
+        .position(|window| window == b"\x08\x00\x00\x00ALTV")
+        .expect("No record found after the BITS data")
+}
+
+/// Check if the data starts with a record size followed by a tag
+fn is_record_header(data: &[u8]) -> bool {
+    match data {
+        [a, b, c, d, tag @ ..] if tag.len() >= 4 => {
+            let size = u32::from_le_bytes([*a, *b, *c, *d]) as usize;
+            (4..=tag.len()).contains(&size)
+                && tag[0].is_ascii_graphic()
+                && tag[1..4].iter().all(|c| c.is_ascii_graphic() || *c == 0)
+        }
+        _ => false,
+    }
+}
+
 fn read(reader: &mut BiffReader) -> ImageData {
     let mut image_data = ImageData::default();
     loop {
@@ -421,8 +450,9 @@ fn read(reader: &mut BiffReader) -> ImageData {
             }
             "BITS" => {
                 // these have zero as length
-                // read all the data until the next expected tag
-                let data = reader.data_until_header(b"\x08\x00\x00\x00ALTV");
+                // the compressed data follows the record
+                let len = bits_data_len(reader.remaining_data());
+                let data = reader.take_raw_data(len);
                 //let reader = std::io::Cursor::new(data);
 
                 // uncompressed = zlib.decompress(image_data.data[image_data.pos:]) #, wbits=9)
diff --git a/src/vpx/lzw.rs b/src/vpx/lzw.rs
index 788d618..2946a95 100644
--- a/src/vpx/lzw.rs
+++ b/src/vpx/lzw.rs
@@ -9,7 +9,7 @@
 //! <https://github.com/freezy/VisualPinball.Engine/blob/master/VisualPinball.Engine/IO/LzwWriter.cs>
 //! <https://github.com/freezy/VisualPinball.Engine/blob/master/VisualPinball.Engine/IO/LzwReader.cs>
 
-use weezl::BitOrder;
+use weezl::{BitOrder, LzwStatus};
 
 /// Convert gif blocks to continuous bytes
 /// We could optimize this in an iterator
@@ -62,6 +62,31 @@ pub fn to_lzw_blocks(data: &[u8]) -> Vec<u8> {
     to_blocks(&compressed, 254)
 }
 
+/// Number of bytes taken by the gif blocks at the start of `data`, up to and including the block
+/// that holds the end code of the compressed data.
+///
+/// Returns `None` if there is no such block.
+pub(crate) fn lzw_blocks_len(data: &[u8]) -> Option<usize> {
+    let mut decoder = weezl::decode::Decoder::new(BitOrder::Lsb, 8);
+    let mut uncompressed = vec![0u8; 64 * 1024];
+    let mut pos = 0;
+    while pos < data.len() {
+        let block_end = pos + 1 + data[pos] as usize;
+        let mut block = data.get(pos + 1..block_end)?;
+        loop {
+            let result = decoder.decode_bytes(block, &mut uncompressed);
+            block = &block[result.consumed_in..];
+            match result.status.ok()? {
+                LzwStatus::Done => return Some(block_end),
+                LzwStatus::NoProgress => break,
+                LzwStatus::Ok => {}
+            }
+        }
+        pos = block_end;
+    }
+    None
+}
+
 pub fn from_lzw_blocks(compressed: &[u8]) -> Vec<u8> {
     // convert gif blocks to compressed bytes
     let compressed = from_blocks(compressed);
-- 
2.43.0


From 2783311ca35f532bfd9e0b0a4ff03aa415d492c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 21/51] fix: file names that differ only in letter case no
 longer clash, whatever the letters

---
 src/vpx/expanded/gameitems.rs |  4 ++--
 src/vpx/expanded/util.rs      | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index ee3717b..b0e38d9 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -11,7 +11,7 @@ use std::path::Path;
 use tracing::instrument;
 
 use super::primitives::{read_gameitem_binaries, write_gameitem_binaries};
-use super::util::{read_json, truncate_utf8};
+use super::util::{fold_case, read_json, truncate_utf8};
 use super::{ExpandOptions, WriteError};
 
 /// Since it's common to change layer visibility we don't want that to cause a
@@ -47,7 +47,7 @@ impl FileNameGen {
     fn ensure_unique(&mut self, file_name: String) -> String {
         let mut unique_name = file_name.clone();
         let mut counter = 0;
-        while !self.claim(&unique_name.to_lowercase()) {
+        while !self.claim(&fold_case(&unique_name)) {
             counter += 1;
             // There is a chance that the name we give is already used in one of the next files.
             // Therefore, we use double underscores to increase the chance it is unique.
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index d0e4de8..6c85966 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -40,6 +40,17 @@ pub(super) fn component_file_name(file_stem: &str, ext: &str) -> String {
     format!("{file_stem}.{ext}")
 }
 
+/// A form of a file name that is the same for all names a case-insensitive file system considers
+/// equal. Such file systems compare letter by letter, as opposed to [`str::to_lowercase`], for
+/// which a sigma at the end of a word is another letter.
+pub(super) fn fold_case(name: &str) -> String {
+    name.chars()
+        .flat_map(char::to_lowercase)
+        .flat_map(char::to_uppercase)
+        .flat_map(char::to_lowercase)
+        .collect()
+}
+
 /// Hands out file names (without extension) that are valid and unique, also on case-insensitive
 /// file systems.
 #[derive(Default)]
@@ -52,7 +63,7 @@ impl UniqueFileStems {
     pub(super) fn file_stem(&mut self, name: &str) -> String {
         let sanitized = truncate_utf8(sanitize_filename(name), MAX_FILE_STEM_LEN);
         let mut stem = sanitized.clone();
-        while !self.used_lowercase.insert(stem.to_lowercase()) {
+        while !self.used_lowercase.insert(fold_case(&stem)) {
             self.dupe_counter += 1;
             stem = format!("{}_dedup{}", sanitized, self.dupe_counter);
         }
-- 
2.43.0


From c83722c00c6ee2630d2876486b96327afbf2ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:58 +0000
Subject: [PATCH 22/51] fix: wave sounds in a format other than PCM are
 extracted as valid files

---
 src/vpx/sound.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index e856c18..bfacfd6 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -171,23 +171,18 @@ impl SoundDataJson {
 const WAV_HEADER_SIZE: usize = 44;
 
 fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
-    let data_len = if sound_data.wave_form.format_tag == 1 {
-        // In the vpx file for PCM this is always 0,
-        // so we use the length of the data.
-        sound_data.data.len() as u32 // 4
-    } else {
-        sound_data.wave_form.cb_size as u32 // 4
-    };
-    let extension_size = if sound_data.wave_form.format_tag == 1 {
+    let wave_form = &sound_data.wave_form;
+    // PCM normally has no cbSize field
+    let extension_size = if wave_form.format_tag == 1 && wave_form.cb_size == 0 {
         None
     } else {
-        Some(0)
+        Some(wave_form.cb_size)
     };
     // a fmt chunk with a cbSize field is 18 bytes instead of 16
     let fmt_size = if extension_size.is_some() { 18 } else { 16 };
 
     let wav_header = WavHeader {
-        size: sound_data.data.len() as u32 + 36,
+        size: sound_data.data.len() as u32 + fmt_size + 20,
         fmt_size,
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
@@ -199,11 +194,11 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
         extension_fields: Vec::new(),
         pre_fmt_fields: Vec::new(),
         extra_fields: Vec::new(),
-        data_size: data_len,
+        data_size: sound_data.data.len() as u32,
     };
     let mut buf = BytesMut::with_capacity(WAV_HEADER_SIZE);
     write_wav_header(&wav_header, &mut buf);
-    buf.to_vec() // total 44 bytes
+    buf.to_vec() // total 44 or 46 bytes
 }
 
 impl From<WavHeader> for WaveForm {
@@ -215,7 +210,7 @@ impl From<WavHeader> for WaveForm {
             avg_bytes_per_sec: header.avg_bytes_per_sec,
             block_align: header.block_align,
             bits_per_sample: header.bits_per_sample,
-            cb_size: 0,
+            cb_size: header.extension_size.unwrap_or(0),
         }
     }
 }
@@ -243,15 +238,20 @@ pub fn read_sound(data: &[u8], sound_data: &mut SoundData) -> io::Result<()> {
                 ),
             )
         })?;
+        let header_size = header.size as usize;
         let header_data_size = header.data_size;
+        let header_extension_size = header.extension_size;
         // read all remaining bits
         sound_data.data = reader.to_vec();
         let mut wave_form: WaveForm = header.into();
-        if wave_form.format_tag == 1 {
-            // in the vpx file this is always 0 for PCM
-            wave_form.cb_size = 0;
-        } else {
-            wave_form.cb_size = header_data_size as u16;
+        // vpin up to 0.27 wrote the size of the extra information as the size of the data for
+        // all but PCM, and did not account for the cbSize field in the RIFF size.
+        if wave_form.format_tag != 1
+            && header_extension_size == Some(0)
+            && header_size == sound_data.data.len() + 36
+            && let Ok(cb_size) = u16::try_from(header_data_size)
+        {
+            wave_form.cb_size = cb_size;
         }
         sound_data.wave_form = wave_form;
     } else {
-- 
2.43.0


From 353f278ae5971d984bebb49e45f00037df4de39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:58 +0000
Subject: [PATCH 23/51] fix: image conversion to WebP reports every converted
 image and leaves alone those WebP cannot hold

---
 src/vpx/mod.rs | 131 +++++++++++++++++++++++++------------------------
 1 file changed, 67 insertions(+), 64 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index befeeac..c249504 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -1026,79 +1026,82 @@ fn images_to_webp<F: Read + Write + Seek>(
     let mut conversions = Vec::new();
     for index in 0..gamedata.images_size {
         let mut image_data = read_image(comp, index)?;
-        match image_data.ext().to_lowercase().as_str() {
-            "png" => {
-                // convert the image to webp
-                image_data.change_extension("webp");
-                if let Some(jpeg) = &mut image_data.jpeg {
-                    // read the image bytes using the rust image library
-                    let dynamic_image =
-                        match ::image::load_from_memory_with_format(&jpeg.data, ImageFormat::Png) {
-                            Ok(image) => image,
-                            Err(e) => {
-                                // see https://github.com/image-rs/image/issues/2260
-                                warn!("Skipping image {}: {}", image_data.name, e);
-                                continue;
-                            }
-                        };
-
-                    // write as webp back to the image
-                    let mut webp = Vec::new();
-                    let mut cursor = io::Cursor::new(&mut webp);
-                    // should be lossless according to the docs
-                    dynamic_image
-                        .write_to(&mut cursor, ImageFormat::WebP)
-                        .map_err(|e| io::Error::other(e.to_string()))?;
-                    jpeg.data = webp;
-                    write_image(comp, index as usize, &image_data, true)?;
-                    conversions.push(ImageToWebpConversion {
-                        name: image_data.name.clone(),
-                        old_extension: "png".to_string(),
-                        new_extension: "webp".to_string(),
-                    });
-                }
+        let (dynamic_image, old_extension) = match (&image_data.bits, &image_data.jpeg) {
+            // stored as a bitmap, whatever the extension of the file it was imported from
+            (Some(bits), _) => {
+                let dynamic_image = vpx_image_to_dynamic_image(
+                    &bits.lzw_compressed_data,
+                    image_data.width,
+                    image_data.height,
+                );
+                (dynamic_image, "bmp")
             }
-            "bmp" => {
-                // convert the image to webp
-                image_data.change_extension("webp");
-                if let Some(bits) = &mut image_data.bits {
-                    // read the image bytes using the rust image library
-
-                    let dynamic_image = vpx_image_to_dynamic_image(
-                        &bits.lzw_compressed_data,
-                        image_data.width,
-                        image_data.height,
-                    );
-
-                    // write as webp back to the image
-                    let mut webp = Vec::new();
-                    let mut cursor = io::Cursor::new(&mut webp);
-                    // should be lossless according to the docs
-                    dynamic_image
-                        .write_to(&mut cursor, ImageFormat::WebP)
-                        .map_err(|e| io::Error::other(e.to_string()))?;
-                    let jpg = ImageDataJpeg {
-                        path: image_data.path.clone(),
-                        name: image_data.name.clone(),
-                        internal_name: None,
-                        data: webp,
-                    };
-                    image_data.bits = None;
-                    image_data.jpeg = Some(jpg);
-                    write_image(comp, index as usize, &image_data, true)?;
+            (None, Some(jpeg)) if image_data.ext().eq_ignore_ascii_case("png") => {
+                // read the image bytes using the rust image library
+                match ::image::load_from_memory_with_format(&jpeg.data, ImageFormat::Png) {
+                    Ok(image) => (image, "png"),
+                    Err(e) => {
+                        // see https://github.com/image-rs/image/issues/2260
+                        warn!("Skipping image {}: {}", image_data.name, e);
+                        continue;
+                    }
                 }
-                conversions.push(ImageToWebpConversion {
+            }
+            _ => continue,
+        };
+        if !fits_webp(&dynamic_image) {
+            warn!(
+                "Skipping image {}: WebP can not hold {}x{} {:?}",
+                image_data.name,
+                dynamic_image.width(),
+                dynamic_image.height(),
+                dynamic_image.color()
+            );
+            continue;
+        }
+
+        let mut webp = Vec::new();
+        let mut cursor = io::Cursor::new(&mut webp);
+        // should be lossless according to the docs
+        dynamic_image
+            .write_to(&mut cursor, ImageFormat::WebP)
+            .map_err(|e| io::Error::other(e.to_string()))?;
+
+        // write as webp back to the image
+        image_data.change_extension("webp");
+        image_data.bits = None;
+        match &mut image_data.jpeg {
+            Some(jpeg) => jpeg.data = webp,
+            None => {
+                image_data.jpeg = Some(ImageDataJpeg {
+                    path: image_data.path.clone(),
                     name: image_data.name.clone(),
-                    old_extension: "bmp".to_string(),
-                    new_extension: "webp".to_string(),
-                });
+                    internal_name: None,
+                    data: webp,
+                })
             }
-            _ => {}
         }
+        write_image(comp, index as usize, &image_data, true)?;
+        conversions.push(ImageToWebpConversion {
+            name: image_data.name.clone(),
+            old_extension: old_extension.to_string(),
+            new_extension: "webp".to_string(),
+        });
     }
     Ok(conversions)
 }
 
+/// Whether a WebP image can hold all pixels: 8 bits per channel, up to 16383 pixels in each direction
+fn fits_webp(image: &::image::DynamicImage) -> bool {
+    const WEBP_MAX_SIZE: u32 = 16383;
+    use ::image::ColorType;
+    matches!(
+        image.color(),
+        ColorType::L8 | ColorType::La8 | ColorType::Rgb8 | ColorType::Rgba8
+    ) && image.width() <= WEBP_MAX_SIZE
+        && image.height() <= WEBP_MAX_SIZE
+}
+
 fn read_fonts<F: Read + Seek>(
     comp: &mut CompoundFile<F>,
     gamedata: &GameData,
-- 
2.43.0


From cba6c4a8f72963cb19dfd2849cffe48464e06b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:59 +0000
Subject: [PATCH 24/51] fix: undefined components of animation frames survive
 extraction

---
 src/vpx/expanded/primitives.rs | 38 +++++++++++++++++++++++++++-------
 src/vpx/obj.rs                 |  2 +-
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 49e39ed..d50ceaf 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -13,8 +13,8 @@ use crate::vpx::gameitem::primitive::{
 use crate::vpx::gltf::{GltfContainer, read_gltf, write_gltf};
 use crate::vpx::model::Vertex3dNoTex2;
 use crate::vpx::obj::{
-    ObjData, ReadObjResult, VpxFace, read_obj as obj_read_obj, read_obj_from_reader, write_obj,
-    write_vertex_index_for_vpx,
+    ObjData, ReadObjResult, VpxCommentBytes, VpxFace, read_obj as obj_read_obj,
+    read_obj_from_reader, write_obj, write_vertex_index_for_vpx,
 };
 
 use crate::vpx::TableDimensions;
@@ -660,8 +660,7 @@ fn replace_vertices(
             full_vertex.nx = animation_vertex.nx;
             full_vertex.ny = animation_vertex.ny;
             full_vertex.nz = animation_vertex.nz;
-            // TODO we don't have a full representation of the vertex
-            VertexWrapper::new([0u8; 32], full_vertex)
+            VertexWrapper::new(full_vertex.to_vpx_bytes(), full_vertex)
         })
         .collect::<Vec<_>>();
     Ok(full_vertices)
@@ -937,11 +936,35 @@ fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<Ver
             ny,
             nz,
         };
-        vertices.push(vertext);
+        vertices.push(match vn.vpx_bytes {
+            Some(VpxCommentBytes::Vertex(bytes)) => with_preserved_nan(vertext, &bytes),
+            _ => vertext,
+        });
     }
     Ok(vertices)
 }
 
+/// Takes the components that are NaN in the preserved vpx bytes of the vertex from there, text
+/// formats and glTF don't keep them.
+/// Everything else may have been edited. The bytes are all zeros in files extracted with vpin up
+/// to 0.27.
+fn with_preserved_nan(vertex: VertData, vpx_bytes: &[u8; 32]) -> VertData {
+    let pick = |index: usize, value: f32| {
+        let mut bytes = [0u8; 4];
+        bytes.copy_from_slice(&vpx_bytes[index * 4..index * 4 + 4]);
+        let preserved = f32::from_le_bytes(bytes);
+        if preserved.is_nan() { preserved } else { value }
+    };
+    VertData {
+        x: pick(0, vertex.x),
+        y: pick(1, vertex.y),
+        z: pick(2, vertex.z),
+        nx: pick(3, vertex.nx),
+        ny: pick(4, vertex.ny),
+        nz: pick(5, vertex.nz),
+    }
+}
+
 fn read_gltf_as_frame(
     gltf_path: &Path,
     container: GltfContainer,
@@ -950,14 +973,15 @@ fn read_gltf_as_frame(
     let (vertices, _) = read_gltf(gltf_path, container, fs)?;
     let mut frames = Vec::with_capacity(vertices.len());
     for vertex in vertices {
-        frames.push(VertData {
+        let frame_vertex = VertData {
             x: vertex.vertex.x,
             y: vertex.vertex.y,
             z: vertex.vertex.z,
             nx: vertex.vertex.nx,
             ny: vertex.vertex.ny,
             nz: vertex.vertex.nz,
-        });
+        };
+        frames.push(with_preserved_nan(frame_vertex, &vertex.vpx_encoded_vertex));
     }
     Ok(frames)
 }
diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index d858658..0b2a83c 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -700,7 +700,7 @@ pub(crate) struct VpxObjNormal {
     pub(crate) z: f32,
     // in case the vertex had NaN or otherwise unrepresentable values, the
     // original vpx bytes from the preceding `# vpx <hex>` comment go here
-    vpx_bytes: Option<VpxCommentBytes>,
+    pub(crate) vpx_bytes: Option<VpxCommentBytes>,
 }
 impl VpxObjNormal {
     fn new(x: f32, y: f32, z: f32, vpx_bytes: Option<VpxCommentBytes>) -> Self {
-- 
2.43.0


From 97eed9b820ba4ae4a799674aa77b3b908a2447bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 25/51] fix: numbers of OBJ files are read at full single
 precision

---
 src/vpx/obj.rs | 72 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 0b2a83c..b670da5 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -35,11 +35,14 @@ use crate::vpx::model::Vertex3dNoTex2;
 use bytes::{BufMut, BytesMut};
 use log::warn;
 use std::error::Error;
+use std::fmt::Display;
 use std::io;
 use std::io::{BufRead, ErrorKind};
+use std::num::ParseFloatError;
 use std::path::Path;
+use std::str::FromStr;
 use tracing::{info_span, instrument};
-use wavefront_obj_io::{ObjReader, ObjWriter};
+use wavefront_obj_io::{ObjFloat, ObjReader, ObjWriter};
 // Some vpx files contain NaN values in their vertex data. NaN payload bits
 // cannot survive a text format (every "NaN" parses back as the canonical
 // quiet NaN), so the original vpx bytes are stored in a comment preceding
@@ -608,11 +611,51 @@ impl VpxObjReader {
     }
 }
 
-// Floats are parsed at f64 precision: narrowing an f64 parsed from the
-// shortest round-trip text of an f32 yields that f32 again, and the V
-// texture coordinate needs the extra precision for the exact flip back
-// to vpx tv (see flipped_v_text).
-impl ObjReader<f64> for VpxObjReader {
+/// A number as read from an obj file, at both precisions.
+///
+/// Most values are f32, narrowing the f64 nearest to the text can result in the neighbour of the
+/// f32 nearest to it. The V texture coordinate needs the extra precision for the exact flip back
+/// to vpx tv (see flipped_v_text).
+#[derive(Debug, Clone, Copy, PartialEq)]
+struct ObjNumber {
+    single: f32,
+    double: f64,
+}
+
+impl FromStr for ObjNumber {
+    type Err = ParseFloatError;
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        Ok(ObjNumber {
+            single: s.parse()?,
+            double: s.parse()?,
+        })
+    }
+}
+
+impl Display for ObjNumber {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        Display::fmt(&self.double, f)
+    }
+}
+
+impl ObjFloat for ObjNumber {
+    fn fract(self) -> Self {
+        ObjNumber {
+            single: self.single.fract(),
+            double: self.double.fract(),
+        }
+    }
+
+    fn zero() -> Self {
+        ObjNumber {
+            single: 0.0,
+            double: 0.0,
+        }
+    }
+}
+
+impl ObjReader<ObjNumber> for VpxObjReader {
     fn read_comment(&mut self, comment: &str) {
         self.previous_comment = Some(comment.to_string());
     }
@@ -623,20 +666,25 @@ impl ObjReader<f64> for VpxObjReader {
         self.previous_comment = None;
     }
 
-    fn read_vertex(&mut self, x: f64, y: f64, z: f64, w: Option<f64>) {
+    fn read_vertex(&mut self, x: ObjNumber, y: ObjNumber, z: ObjNumber, w: Option<ObjNumber>) {
         self.vertices
-            .push((x as f32, y as f32, z as f32, w.map(|w| w as f32)));
+            .push((x.single, y.single, z.single, w.map(|w| w.single)));
         self.previous_comment = None;
     }
 
-    fn read_texture_coordinate(&mut self, u: f64, v: Option<f64>, w: Option<f64>) {
+    fn read_texture_coordinate(
+        &mut self,
+        u: ObjNumber,
+        v: Option<ObjNumber>,
+        w: Option<ObjNumber>,
+    ) {
         self.texture_coordinates
-            .push((u as f32, v, w.map(|w| w as f32)));
+            .push((u.single, v.map(|v| v.double), w.map(|w| w.single)));
         self.previous_comment = None;
     }
 
-    fn read_normal(&mut self, nx: f64, ny: f64, nz: f64) {
-        let (nx, ny, nz) = (nx as f32, ny as f32, nz as f32);
+    fn read_normal(&mut self, nx: ObjNumber, ny: ObjNumber, nz: ObjNumber) {
+        let (nx, ny, nz) = (nx.single, ny.single, nz.single);
         // If on the write side there was a NaN value that will be stored in a comment
         // This way we stay symmetric
         if let Some(comment) = &self.previous_comment {
-- 
2.43.0


From 5cadc300f1f0c12b413027af453e24f659ea9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:28 +0000
Subject: [PATCH 26/51] fix: glTF buffers are aligned and free of empty meshes
 and NaN texture coordinates

Meshes with an odd number of 16 bit indices left the next mesh's positions
unaligned, meshes without triangles gave empty accessors, NaN texture
coordinates were written as such, and the uri of the .bin file was not
percent-encoded. Validators and loaders reject each of these.
---
 src/vpx/export/gltf_export.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 40716b2..c31ee09 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1914,6 +1914,9 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
         meshes.push(build_implicit_playfield_mesh(vpx, &playfield_material_name));
     }
 
+    // glTF accessors cannot be empty, so a mesh needs at least one triangle
+    meshes.retain(|mesh| !mesh.vertices.is_empty() && !mesh.indices.is_empty());
+
     (meshes, item_groups)
 }
 
@@ -2414,8 +2417,10 @@ fn build_combined_gltf_payload(
         // Write texcoords (VEC2 float)
         let texcoords_offset = bin_data.len();
         for VertexWrapper { vertex, .. } in &mesh.vertices {
-            bin_data.write_f32::<LittleEndian>(vertex.tu)?;
-            bin_data.write_f32::<LittleEndian>(vertex.tv)?;
+            let tu = if vertex.tu.is_nan() { 0.0 } else { vertex.tu };
+            let tv = if vertex.tv.is_nan() { 0.0 } else { vertex.tv };
+            bin_data.write_f32::<LittleEndian>(tu)?;
+            bin_data.write_f32::<LittleEndian>(tv)?;
         }
         let texcoords_length = bin_data.len() - texcoords_offset;
 
@@ -2436,6 +2441,11 @@ fn build_combined_gltf_payload(
         }
         let indices_length = bin_data.len() - indices_offset;
 
+        // Pad to 4-byte alignment for the next mesh
+        while !bin_data.len().is_multiple_of(4) {
+            bin_data.push(0);
+        }
+
         // Calculate bounds in glTF coordinate space (after transformation and scaling)
         // VPX (x, y, z) → glTF (x * scale, gltf_y = z * scale, y * scale)
         let (min_x, max_x, min_y, max_y, min_z, max_z) = mesh.vertices.iter().fold(
@@ -3028,6 +3038,19 @@ fn write_glb<W: io::Write>(
     Ok(())
 }
 
+/// Percent-encode a file name so that it is a valid relative URI
+fn uri_encode(file_name: &str) -> String {
+    let mut uri = String::with_capacity(file_name.len());
+    for byte in file_name.bytes() {
+        if byte.is_ascii_alphanumeric() || matches!(byte, b'-' | b'.' | b'_' | b'~') {
+            uri.push(byte as char);
+        } else {
+            uri.push_str(&format!("%{byte:02X}"));
+        }
+    }
+    uri
+}
+
 /// Output format for glTF export
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
 pub enum GltfFormat {
@@ -3196,7 +3219,7 @@ pub fn export_gltf(
             if let Some(buffers) = json.get_mut("buffers").and_then(|b| b.as_array_mut())
                 && let Some(buffer) = buffers.first_mut()
             {
-                buffer["uri"] = json!(bin_filename);
+                buffer["uri"] = json!(uri_encode(&bin_filename));
             }
 
             // Write the .bin file
-- 
2.43.0


From a5a8f4a227fd35ab645f5bb72b60b06c612ae159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 27/51] fix: glTF export keeps items that share a name apart

Meshes were gathered into item groups by the item's name, so those of a
second item of the same name (unnamed decals, say) landed in the first one's
node, with its layer and its data.
---
 src/vpx/export/gltf_export.rs | 147 +++++++++++++++++-----------------
 1 file changed, 75 insertions(+), 72 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index c31ee09..1021931 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -205,11 +205,11 @@ struct NamedMesh {
     /// When false, the node will be exported with the KHR_node_visibility extension
     /// set to `visible: false`. Defaults to true.
     visible: bool,
-    /// Optional group name for grouping related meshes under a parent node.
-    /// When set, all meshes with the same group_name will be placed as children
+    /// Optional index of the item group this mesh belongs to.
+    /// When set, all meshes of the same group will be placed as children
     /// of a single parent group node. Used for lights to group bulb, socket,
     /// insert meshes and point light under one parent.
-    group_name: Option<String>,
+    group: Option<usize>,
 }
 
 /// Information about an item group for creating parent group nodes in the glTF scene.
@@ -217,6 +217,8 @@ struct NamedMesh {
 /// in a parent node that groups the item's sub-meshes (and point light node for lights)
 /// as children, with the item's JSON data as glTF `extras`.
 struct ItemGroupInfo {
+    /// The index of the item in the table's game items
+    item_idx: usize,
     /// The item's name, used as the group node name
     name: String,
     /// Layer name for organizing the group in the scene hierarchy
@@ -229,13 +231,17 @@ struct ItemGroupInfo {
 ///
 /// Extracts the item's name, layer name, and serialized JSON representation
 /// to populate the group node's name and glTF `extras`.
-fn item_group_info_for(item: &(impl HasSharedAttributes + serde::Serialize)) -> ItemGroupInfo {
+fn item_group_info_for(
+    item_idx: usize,
+    item: &(impl HasSharedAttributes + serde::Serialize),
+) -> ItemGroupInfo {
     let layer_name = get_layer_name(
         &item.editor_layer_name().map(String::from),
         item.editor_layer(),
     );
     let extras = serde_json::to_value(item).unwrap_or(json!({}));
     ItemGroupInfo {
+        item_idx,
         name: item.name().to_string(),
         layer_name,
         extras,
@@ -258,7 +264,7 @@ impl Default for NamedMesh {
             translation: None,
             scale: None,
             visible: true,
-            group_name: None,
+            group: None,
         }
     }
 }
@@ -798,7 +804,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
     );
     let detail_level = vpx.gamedata.effective_detail_level();
 
-    for gameitem in &vpx.gameitems {
+    for (item_idx, gameitem) in vpx.gameitems.iter().enumerate() {
         match gameitem {
             GameItemEnum::Primitive(primitive) => {
                 let visible = crate::vpx::compat::primitive_is_visible(primitive, &vpx.version);
@@ -816,7 +822,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         has_explicit_playfield = true;
                     }
 
-                    let group_info = item_group_info_for(primitive);
+                    let group_info = item_group_info_for(item_idx, primitive);
                     let prim_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -872,7 +878,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         transmission_factor,
                         translation: Some(translation),
                         visible,
-                        group_name: Some(primitive.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -885,7 +891,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 if let Some(wall_meshes) = build_wall_meshes(wall, &table_dims) {
-                    let group_info = item_group_info_for(wall);
+                    let group_info = item_group_info_for(item_idx, wall);
                     let wall_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -918,7 +924,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                             layer_name: wall_layer_name.clone(),
                             transmission_factor,
                             visible: wall.is_top_bottom_visible,
-                            group_name: Some(wall.name.clone()),
+                            group: Some(item_groups.len() - 1),
                             ..Default::default()
                         });
                     }
@@ -952,7 +958,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                             layer_name: wall_layer_name.clone(),
                             transmission_factor,
                             visible: wall.is_side_visible,
-                            group_name: Some(wall.name.clone()),
+                            group: Some(item_groups.len() - 1),
                             ..Default::default()
                         });
                     }
@@ -979,7 +985,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if let Some((vertices, indices)) =
                     build_ramp_mesh(ramp, &table_dims, detail_level, material_opacity_active)
                 {
-                    let group_info = item_group_info_for(ramp);
+                    let group_info = item_group_info_for(item_idx, ramp);
                     let ramp_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1002,7 +1008,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         texture_name,
                         layer_name: ramp_layer_name,
                         visible: ramp.is_visible,
-                        group_name: Some(ramp.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1012,7 +1018,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 if let Some((vertices, indices, center)) = build_rubber_mesh(rubber, detail_level) {
-                    let group_info = item_group_info_for(rubber);
+                    let group_info = item_group_info_for(item_idx, rubber);
                     let rubber_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1037,7 +1043,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: rubber_layer_name,
                         translation,
                         visible: rubber.is_visible,
-                        group_name: Some(rubber.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1048,7 +1054,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 if let Some((vertices, indices, center)) = build_flasher_mesh(flasher, &table_dims)
                 {
-                    let group_info = item_group_info_for(flasher);
+                    let group_info = item_group_info_for(item_idx, flasher);
                     let flasher_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1082,7 +1088,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: flasher_layer_name,
                         translation,
                         visible: flasher.is_visible,
-                        group_name: Some(flasher.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1093,7 +1099,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 // TODO: get surface height from the table
                 if let Some(flipper_meshes) = build_flipper_meshes(flipper, 0.0) {
-                    let group_info = item_group_info_for(flipper);
+                    let group_info = item_group_info_for(item_idx, flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1122,7 +1128,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: flipper_layer_name.clone(),
                         translation,
                         visible: flipper.is_visible,
-                        group_name: Some(flipper.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
 
@@ -1141,7 +1147,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                             layer_name: flipper_layer_name.clone(),
                             translation,
                             visible: flipper.is_visible,
-                            group_name: Some(flipper.name.clone()),
+                            group: Some(item_groups.len() - 1),
                             ..Default::default()
                         });
                     }
@@ -1152,7 +1158,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     get_surface_height(vpx, &bumper.surface, bumper.center.x, bumper.center.y);
                 let bumper_meshes = build_bumper_meshes(bumper);
 
-                let group_info = item_group_info_for(bumper);
+                let group_info = item_group_info_for(item_idx, bumper);
                 let bumper_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
 
@@ -1178,7 +1184,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         material_name: base_material,
                         layer_name: bumper_layer_name.clone(),
                         translation,
-                        group_name: Some(bumper.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1197,7 +1203,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         material_name: socket_material,
                         layer_name: bumper_layer_name.clone(),
                         translation,
-                        group_name: Some(bumper.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1215,7 +1221,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         material_name: ring_material,
                         layer_name: bumper_layer_name.clone(),
                         translation,
-                        group_name: Some(bumper.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1234,7 +1240,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         material_name: cap_material,
                         layer_name: bumper_layer_name.clone(),
                         translation,
-                        group_name: Some(bumper.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1247,7 +1253,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     get_surface_height(vpx, &spinner.surface, spinner.center.x, spinner.center.y);
                 let spinner_meshes = build_spinner_meshes(spinner);
 
-                let group_info = item_group_info_for(spinner);
+                let group_info = item_group_info_for(item_idx, spinner);
                 let spinner_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
 
@@ -1270,7 +1276,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: spinner_layer_name.clone(),
                         translation,
                         visible: spinner.is_visible,
-                        group_name: Some(spinner.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1296,7 +1302,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     layer_name: spinner_layer_name.clone(),
                     translation,
                     visible: spinner.is_visible,
-                    group_name: Some(spinner.name.clone()),
+                    group: Some(item_groups.len() - 1),
                     ..Default::default()
                 });
             }
@@ -1305,7 +1311,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 if let Some((vertices, indices)) = build_hit_target_mesh(hit_target) {
-                    let group_info = item_group_info_for(hit_target);
+                    let group_info = item_group_info_for(item_idx, hit_target);
                     let hit_target_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1335,7 +1341,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: hit_target_layer_name.clone(),
                         translation,
                         visible: hit_target.is_visible,
-                        group_name: Some(hit_target.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1347,7 +1353,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 let surface_height =
                     get_surface_height(vpx, &gate.surface, gate.center.x, gate.center.y);
                 if let Some(gate_meshes) = build_gate_meshes(gate) {
-                    let group_info = item_group_info_for(gate);
+                    let group_info = item_group_info_for(item_idx, gate);
                     let gate_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1375,7 +1381,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                             layer_name: gate_layer_name.clone(),
                             translation,
                             visible: gate.is_visible,
-                            group_name: Some(gate.name.clone()),
+                            group: Some(item_groups.len() - 1),
                             ..Default::default()
                         });
                     }
@@ -1399,7 +1405,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         translation,
                         scale: Some(Vec3::new(length, length, length)),
                         visible: gate.is_visible,
-                        group_name: Some(gate.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1411,7 +1417,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 let surface_height =
                     get_surface_height(vpx, &trigger.surface, trigger.center.x, trigger.center.y);
                 if let Some((vertices, indices)) = build_trigger_mesh(trigger) {
-                    let group_info = item_group_info_for(trigger);
+                    let group_info = item_group_info_for(item_idx, trigger);
                     let trigger_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1437,7 +1443,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: trigger_layer_name.clone(),
                         translation,
                         visible: trigger.is_visible,
-                        group_name: Some(trigger.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1453,7 +1459,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
 
                 let is_visible = light.visible.unwrap_or(true);
 
-                let group_info = item_group_info_for(light);
+                let group_info = item_group_info_for(item_idx, light);
                 let light_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
 
@@ -1491,7 +1497,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                             layer_name: light_layer_name.clone(),
                             translation,
                             visible: is_visible,
-                            group_name: Some(light.name.clone()),
+                            group: Some(item_groups.len() - 1),
                             ..Default::default()
                         });
                     }
@@ -1509,7 +1515,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                             layer_name: light_layer_name.clone(),
                             translation,
                             visible: is_visible,
-                            group_name: Some(light.name.clone()),
+                            group: Some(item_groups.len() - 1),
                             ..Default::default()
                         });
                     }
@@ -1559,7 +1565,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: light_layer_name.clone(),
                         translation,
                         visible: is_visible,
-                        group_name: Some(light.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1581,7 +1587,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 } else {
                     Some(plunger.image.clone())
                 };
-                let group_info = item_group_info_for(plunger);
+                let group_info = item_group_info_for(item_idx, plunger);
                 let plunger_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
 
@@ -1605,7 +1611,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: plunger_layer_name.clone(),
                         translation,
                         visible: plunger.is_visible,
-                        group_name: Some(plunger.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1621,7 +1627,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: plunger_layer_name.clone(),
                         translation,
                         visible: plunger.is_visible,
-                        group_name: Some(plunger.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1637,7 +1643,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: plunger_layer_name.clone(),
                         translation,
                         visible: plunger.is_visible,
-                        group_name: Some(plunger.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1653,7 +1659,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: plunger_layer_name.clone(),
                         translation,
                         visible: plunger.is_visible,
-                        group_name: Some(plunger.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1669,7 +1675,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         layer_name: plunger_layer_name.clone(),
                         translation,
                         visible: plunger.is_visible,
-                        group_name: Some(plunger.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1713,7 +1719,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 } else {
                     Some(kicker.material.clone())
                 };
-                let group_info = item_group_info_for(kicker);
+                let group_info = item_group_info_for(item_idx, kicker);
                 let kicker_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
 
@@ -1758,7 +1764,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         color_tint: Some([0.02, 0.02, 0.02, 1.0]), // Near-black for hole effect
                         layer_name: kicker_layer_name.clone(),
                         translation,
-                        group_name: Some(kicker.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1773,7 +1779,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         color_tint: kicker_color,
                         layer_name: kicker_layer_name.clone(),
                         translation,
-                        group_name: Some(kicker.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1788,7 +1794,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     get_surface_height(vpx, &decal.surface, decal.center.x, decal.center.y);
 
                 if let Some((vertices, indices)) = build_decal_mesh(decal) {
-                    let group_info = item_group_info_for(decal);
+                    let group_info = item_group_info_for(item_idx, decal);
                     let decal_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
 
@@ -1820,7 +1826,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         texture_name,
                         layer_name: decal_layer_name,
                         translation,
-                        group_name: Some(decal.name.clone()),
+                        group: Some(item_groups.len() - 1),
                         ..Default::default()
                     });
                 }
@@ -1831,7 +1837,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
 
                 let (vertices, indices) = build_ball_mesh(ball);
 
-                let group_info = item_group_info_for(ball);
+                let group_info = item_group_info_for(item_idx, ball);
                 let ball_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
 
@@ -1900,7 +1906,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     is_ball: true, // Pinballs need metallic, shiny material
                     roughness_texture_name,
                     translation,
-                    group_name: Some(ball.name.clone()),
+                    group: Some(item_groups.len() - 1),
                     ..Default::default()
                 });
             }
@@ -2380,8 +2386,8 @@ fn build_combined_gltf_payload(
     let mut layer_groups: BTreeMap<String, (usize, Vec<usize>)> = BTreeMap::new();
     // Track meshes without a layer (will be at root level)
     let mut root_node_indices: Vec<usize> = Vec::new();
-    // Track grouped meshes (e.g., light bulb/socket/insert): group_name -> child node indices
-    let mut item_group_children: HashMap<String, Vec<usize>> = HashMap::new();
+    // Track grouped meshes (e.g., light bulb/socket/insert): group index -> child node indices
+    let mut item_group_children: HashMap<usize, Vec<usize>> = HashMap::new();
 
     for (mesh_idx, mesh) in meshes.iter().enumerate() {
         let accessor_base = accessors.len();
@@ -2603,12 +2609,9 @@ fn build_combined_gltf_payload(
 
         // Organize nodes: grouped meshes go into their item group,
         // ungrouped meshes go into layer groups or root
-        if let Some(ref group_name) = mesh.group_name {
-            // This mesh belongs to a light group - track it separately
-            item_group_children
-                .entry(group_name.clone())
-                .or_default()
-                .push(node_idx);
+        if let Some(group) = mesh.group {
+            // This mesh belongs to an item group - track it separately
+            item_group_children.entry(group).or_default().push(node_idx);
         } else if let Some(ref layer_name) = mesh.layer_name {
             if let Some((_, children)) = layer_groups.get_mut(layer_name) {
                 // Layer already exists, add this node to its children
@@ -2715,7 +2718,7 @@ fn build_combined_gltf_payload(
     //   - global_emission_scale: overall multiplier applied to everything
 
     // // Collect game item lights and add them
-    // // Track light info for creating nodes later: (name, x, y, z, layer_name)
+    // // Track light info for creating nodes later: (item index, name, x, y, z)
     // NOTE: VPinball lights can have a polygon shape defined by drag_points,
     // constraining the light to that area. glTF only supports point/spot/directional
     // lights, so we export as point lights positioned at the center. The polygon
@@ -2725,9 +2728,9 @@ fn build_combined_gltf_payload(
     // We only export lights whose names start with "GI" (case-insensitive) to avoid
     // cluttering the scene with too many lights. GI lights are typically the general
     // illumination lights that provide ambient lighting to the table.
-    let mut game_lights: Vec<(String, f32, f32, f32, Option<String>)> = Vec::new();
+    let mut game_lights: Vec<(usize, String, f32, f32, f32)> = Vec::new();
 
-    for gameitem in &vpx.gameitems {
+    for (item_idx, gameitem) in vpx.gameitems.iter().enumerate() {
         if let GameItemEnum::Light(light) = gameitem {
             // Skip backglass lights
             if light.is_backglass {
@@ -2785,11 +2788,11 @@ fn build_combined_gltf_payload(
 
             // Store position info for node creation
             game_lights.push((
+                item_idx,
                 light.name.clone(),
                 light.center.x,
                 light.center.y,
                 light_z,
-                get_layer_name(&light.editor_layer_name, light.editor_layer),
             ));
         }
     }
@@ -2827,7 +2830,7 @@ fn build_combined_gltf_payload(
 
     // Add game item light nodes (GI lights only)
     // Light indices start at 2 (after TableLight0 and TableLight1)
-    for (i, (name, x, y, z, _layer_name)) in game_lights.into_iter().enumerate() {
+    for (i, (item_idx, name, x, y, z)) in game_lights.into_iter().enumerate() {
         let light_idx = i + 2; // Offset by 2 for table lights
 
         let gltf_x = vpu_to_units(x, units);
@@ -2847,12 +2850,12 @@ fn build_combined_gltf_payload(
         let node_idx = nodes.len();
         nodes.push(light_node);
 
-        // Add the point light node to the light group (if one exists)
+        // Add the point light node to the light's group
         // so it gets grouped with the bulb/socket/insert meshes
-        item_group_children
-            .entry(name.clone())
-            .or_default()
-            .push(node_idx);
+        match item_groups.iter().position(|g| g.item_idx == item_idx) {
+            Some(group) => item_group_children.entry(group).or_default().push(node_idx),
+            None => scene_root_nodes.push(node_idx),
+        }
     }
 
     // Create parent group nodes for all item groups (lights, bumpers, etc.)
@@ -2860,8 +2863,8 @@ fn build_combined_gltf_payload(
     // as children, with the item's JSON data as extras.
     // For single-child groups, we skip the wrapper and attach extras directly on the
     // child node to avoid duplicate names (which cause .001 suffixes in Blender).
-    for group_info in item_groups {
-        let children = item_group_children.remove(&group_info.name);
+    for (group, group_info) in item_groups.into_iter().enumerate() {
+        let children = item_group_children.remove(&group);
         if let Some(children) = children {
             if children.is_empty() {
                 continue;
-- 
2.43.0


From 679f33ebfc28ca11f73efe741c6613bd6bc448e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:05 +0000
Subject: [PATCH 28/51] fix: glTF export includes invisible flippers, gates,
 hit targets, triggers and plungers when asked to

The mesh builders returned nothing for an item that is not visible, so with
export_invisible_items set these items were still left out.
---
 src/vpx/export/gltf_export.rs | 20 ++++++++++----------
 src/vpx/mesh/plungers/mod.rs  |  4 ++++
 src/vpx/mesh/triggers/mod.rs  |  6 ++++++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 1021931..e161240 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -111,17 +111,17 @@ use crate::vpx::mesh::balls::build_ball_mesh;
 use crate::vpx::mesh::builtin_primitive::effective_primitive_mesh;
 use crate::vpx::mesh::bumpers::build_bumper_meshes;
 use crate::vpx::mesh::flashers::build_flasher_mesh;
-use crate::vpx::mesh::flippers::build_flipper_meshes;
-use crate::vpx::mesh::gates::build_gate_meshes;
-use crate::vpx::mesh::hittargets::build_hit_target_mesh;
+use crate::vpx::mesh::flippers::build_flipper_meshes_unchecked;
+use crate::vpx::mesh::gates::build_gate_meshes_unchecked;
+use crate::vpx::mesh::hittargets::build_hit_target_mesh_unchecked;
 use crate::vpx::mesh::kickers::build_kicker_meshes;
 use crate::vpx::mesh::lights::{build_light_insert_mesh, build_light_meshes};
 use crate::vpx::mesh::playfields::build_playfield_mesh;
-use crate::vpx::mesh::plungers::build_plunger_meshes;
+use crate::vpx::mesh::plungers::build_plunger_meshes_unchecked;
 use crate::vpx::mesh::ramps::build_ramp_mesh;
 use crate::vpx::mesh::rubbers::build_rubber_mesh;
 use crate::vpx::mesh::spinners::build_spinner_meshes;
-use crate::vpx::mesh::triggers::build_trigger_mesh;
+use crate::vpx::mesh::triggers::build_trigger_mesh_unchecked;
 use crate::vpx::mesh::walls::build_wall_meshes;
 use crate::vpx::obj::VpxFace;
 use crate::vpx::units::{ExportUnits, mm_to_vpu, vpu_to_units};
@@ -1098,7 +1098,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes(flipper, 0.0) {
+                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
                     let group_info = item_group_info_for(item_idx, flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1310,7 +1310,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !hit_target.is_visible {
                     continue;
                 }
-                if let Some((vertices, indices)) = build_hit_target_mesh(hit_target) {
+                if let Some((vertices, indices)) = build_hit_target_mesh_unchecked(hit_target) {
                     let group_info = item_group_info_for(item_idx, hit_target);
                     let hit_target_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1352,7 +1352,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &gate.surface, gate.center.x, gate.center.y);
-                if let Some(gate_meshes) = build_gate_meshes(gate) {
+                if let Some(gate_meshes) = build_gate_meshes_unchecked(gate) {
                     let group_info = item_group_info_for(item_idx, gate);
                     let gate_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1416,7 +1416,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &trigger.surface, trigger.center.x, trigger.center.y);
-                if let Some((vertices, indices)) = build_trigger_mesh(trigger) {
+                if let Some((vertices, indices)) = build_trigger_mesh_unchecked(trigger) {
                     let group_info = item_group_info_for(item_idx, trigger);
                     let trigger_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1576,7 +1576,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &plunger.surface, plunger.center.x, plunger.center.y);
-                let plunger_meshes = build_plunger_meshes(plunger);
+                let plunger_meshes = build_plunger_meshes_unchecked(plunger);
                 let material_name = if plunger.material.is_empty() {
                     None
                 } else {
diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index d5a6df3..868b09b 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -948,7 +948,11 @@ pub fn build_plunger_meshes(plunger: &Plunger) -> PlungerMeshes {
             tip: None,
         };
     }
+    build_plunger_meshes_unchecked(plunger)
+}
 
+/// Like [`build_plunger_meshes`] but skips the runtime visibility check.
+pub(crate) fn build_plunger_meshes_unchecked(plunger: &Plunger) -> PlungerMeshes {
     match plunger.plunger_type {
         PlungerType::Unknown | PlungerType::Flat => {
             // Flat plunger: just a simple rod
diff --git a/src/vpx/mesh/triggers/mod.rs b/src/vpx/mesh/triggers/mod.rs
index 74902e9..ea20b00 100644
--- a/src/vpx/mesh/triggers/mod.rs
+++ b/src/vpx/mesh/triggers/mod.rs
@@ -131,7 +131,13 @@ pub fn build_trigger_mesh(trigger: &Trigger) -> Option<(Vec<VertexWrapper>, Vec<
     if !trigger.is_visible {
         return None;
     }
+    build_trigger_mesh_unchecked(trigger)
+}
 
+/// Like [`build_trigger_mesh`] but skips the runtime visibility check.
+pub(crate) fn build_trigger_mesh_unchecked(
+    trigger: &Trigger,
+) -> Option<(Vec<VertexWrapper>, Vec<VpxFace>)> {
     let (mesh, indices) = get_mesh_for_shape(&trigger.shape)?;
 
     let z_offset = get_z_offset(&trigger.shape);
-- 
2.43.0


From 8b7862ae10b5555393f0c4125ef4f09d4e73bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:15 +0000
Subject: [PATCH 29/51] fix: glTF export leaves out invisible lights unless
 invisible items are asked for

---
 src/vpx/export/gltf_export.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index e161240..60b4afc 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1454,11 +1454,14 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
 
+                let is_visible = light.visible.unwrap_or(true);
+                if !options.export_invisible_items && !is_visible {
+                    continue;
+                }
+
                 let surface_height =
                     get_surface_height(vpx, &light.surface, light.center.x, light.center.y);
 
-                let is_visible = light.visible.unwrap_or(true);
-
                 let group_info = item_group_info_for(item_idx, light);
                 let light_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
@@ -2737,6 +2740,11 @@ fn build_combined_gltf_payload(
                 continue;
             }
 
+            // Skip lights that were left out for being invisible
+            if !item_groups.iter().any(|g| g.item_idx == item_idx) {
+                continue;
+            }
+
             // Only include lights whose names start with "gi" (case-insensitive)
             if !light.name.to_lowercase().starts_with("gi") {
                 continue;
@@ -2852,9 +2860,8 @@ fn build_combined_gltf_payload(
 
         // Add the point light node to the light's group
         // so it gets grouped with the bulb/socket/insert meshes
-        match item_groups.iter().position(|g| g.item_idx == item_idx) {
-            Some(group) => item_group_children.entry(group).or_default().push(node_idx),
-            None => scene_root_nodes.push(node_idx),
+        if let Some(group) = item_groups.iter().position(|g| g.item_idx == item_idx) {
+            item_group_children.entry(group).or_default().push(node_idx);
         }
     }
 
-- 
2.43.0


From ffc94b5ef0fa328e5baf926df908b6573f793379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 30/51] fix: glTF cameras and light ranges follow the export
 units

Cameras stayed in metres and the cap on the range of the table lights was 100
of whatever unit was asked for. A range of zero is not valid and is left out.
---
 src/vpx/export/camera.rs      | 11 +++++++-
 src/vpx/export/gltf_export.rs | 47 +++++++++++++++++------------------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/vpx/export/camera.rs b/src/vpx/export/camera.rs
index 180e855..742abcc 100644
--- a/src/vpx/export/camera.rs
+++ b/src/vpx/export/camera.rs
@@ -9,7 +9,7 @@
 
 use crate::vpx::VPX;
 use crate::vpx::gamedata::ViewLayoutMode;
-use crate::vpx::units::vpu_to_m;
+use crate::vpx::units::{ExportUnits, vpu_to_m};
 use serde_json::json;
 
 /// TODO: This scaling factor compensates for using simplified table bounds (8 corner vertices)
@@ -642,6 +642,15 @@ impl GltfCamera {
         ]
     }
 
+    /// The camera with its position and clipping planes in `units` instead of meters
+    pub fn in_units(mut self, units: ExportUnits) -> Self {
+        let scale = units.scale() / ExportUnits::M.scale();
+        self.position = self.position.map(|v| v * scale);
+        self.znear *= scale;
+        self.zfar *= scale;
+        self
+    }
+
     /// Convert Euler angles (YXZ order) to quaternion
     ///
     /// YXZ order: first rotate around Y (yaw), then around X (pitch)
diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 60b4afc..1666b2b 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1929,6 +1929,22 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
     (meshes, item_groups)
 }
 
+/// A KHR_lights_punctual point light
+///
+/// The extension requires a range above zero, without one the light has no cutoff.
+fn point_light_json(name: &str, color: [f32; 3], intensity: f32, range: f32) -> Value {
+    let mut light = json!({
+        "name": name,
+        "type": "point",
+        "color": color,
+        "intensity": intensity
+    });
+    if range > 0.0 {
+        light["range"] = json!(range);
+    }
+    light
+}
+
 /// Build a combined GLTF payload with all meshes
 #[allow(clippy::too_many_arguments)]
 fn build_combined_gltf_payload(
@@ -2685,27 +2701,16 @@ fn build_combined_gltf_payload(
     let color_brightness = (light_color[0] + light_color[1] + light_color[2]) / 3.0;
     let light_intensity = combined_emission_scale * 0.001 * color_brightness;
 
-    // Light range in meters - cap to reasonable value for glTF
+    // Light range - cap to reasonable value (100 m) for glTF
     // VPinball light_range is often very large (e.g., 4000000 VPX units)
-    let light_range = vpu_to_units(vpx.gamedata.light_range, units).min(100.0);
+    let max_light_range = 100.0 * units.scale() / ExportUnits::M.scale();
+    let light_range = vpu_to_units(vpx.gamedata.light_range, units).min(max_light_range);
 
     // Build lights array for KHR_lights_punctual extension
     // Start with the two default VPinball table lights
     let mut gltf_lights = vec![
-        json!({
-            "name": "TableLight0",
-            "type": "point",
-            "color": light_color,
-            "intensity": light_intensity,
-            "range": light_range
-        }),
-        json!({
-            "name": "TableLight1",
-            "type": "point",
-            "color": light_color,
-            "intensity": light_intensity,
-            "range": light_range
-        }),
+        point_light_json("TableLight0", light_color, light_intensity, light_range),
+        point_light_json("TableLight1", light_color, light_intensity, light_range),
     ];
 
     // NOTE: VPinball also has environment lighting (env_emission_scale) and ambient
@@ -2786,13 +2791,7 @@ fn build_combined_gltf_payload(
             // Calculate light range using the helper function
             let range = calculate_light_range(light, units);
 
-            gltf_lights.push(json!({
-                "name": light.name,
-                "type": "point",
-                "color": color,
-                "intensity": intensity,
-                "range": range
-            }));
+            gltf_lights.push(point_light_json(&light.name, color, intensity, range));
 
             // Store position info for node creation
             game_lights.push((
@@ -2928,7 +2927,7 @@ fn build_combined_gltf_payload(
 
     // Create cameras for all three view modes (Desktop, Fullscreen, FSS)
     // Each provides a different view of the table based on VPinball's view settings
-    let cameras = GltfCamera::all_from_vpx(vpx);
+    let cameras = GltfCamera::all_from_vpx(vpx).map(|c| c.in_units(units));
 
     // Add all cameras to glTF
     let gltf_cameras: Vec<_> = cameras.iter().map(|c| c.to_gltf_camera_json()).collect();
-- 
2.43.0


From e4c2325f382c5da3ff9e164908db5bbbfc4f9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:30 +0000
Subject: [PATCH 31/51] fix: glTF images have the media type of their data,
 images without data are left out

The media type came from the file extension alone, and a playfield image
without any data made the export panic.
---
 src/vpx/export/gltf_export.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 1666b2b..6bf2ebd 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -140,13 +140,25 @@ const PLAYFIELD_MATERIAL_NAME: &str = "__playfield__";
 /// Determine the MIME type for an image based on its data and path extension.
 ///
 /// - If the image has bitmap data (`bits` field), it's converted to PNG
-/// - Otherwise, the MIME type is determined from the file extension
+/// - Otherwise, the MIME type is determined from the data and, for unknown data, the file extension
 fn mime_type_for_image(image: &ImageData) -> &'static str {
     // Bitmap data is always converted to PNG
     if image.bits.is_some() {
         return "image/png";
     }
 
+    // Determine from the data, file extensions are not always right
+    if let Some(jpeg) = &image.jpeg {
+        let data = &jpeg.data;
+        if data.starts_with(b"\x89PNG\r\n\x1a\n") {
+            return "image/png";
+        } else if data.starts_with(b"\xff\xd8\xff") {
+            return "image/jpeg";
+        } else if data.starts_with(b"RIFF") && data.get(8..12) == Some(b"WEBP") {
+            return "image/webp";
+        }
+    }
+
     // Determine from file extension
     let path_lower = image.path.to_lowercase();
     if path_lower.ends_with(".png") {
@@ -504,7 +516,8 @@ fn find_playfield_image(vpx: &VPX) -> Option<&ImageData> {
 fn get_image_bytes(image: &ImageData) -> Option<Vec<u8>> {
     // Prefer jpeg/png data over raw bitmap
     if let Some(ref jpeg) = image.jpeg {
-        Some(jpeg.data.clone())
+        // An image without any data is of no use
+        (!jpeg.data.is_empty()).then(|| jpeg.data.clone())
     } else if let Some(ref bits) = image.bits {
         // Convert bitmap to PNG
         use crate::vpx::image::vpx_image_to_dynamic_image;
@@ -664,6 +677,7 @@ fn calculate_playfield_roughness(reflection_strength: f32, fallback_roughness: f
 fn playfield_material(
     vpx: &VPX,
     playfield_image: &ImageData,
+    image_bytes: &[u8],
     playfield_material_name: &str,
     materials: &BTreeMap<String, GltfMaterial>,
     gltf_samplers: &mut Vec<serde_json::Value>,
@@ -672,8 +686,6 @@ fn playfield_material(
     buffer_views: &mut Vec<serde_json::Value>,
     bin_data: &mut Vec<u8>,
 ) -> Value {
-    let image_bytes = get_image_bytes(playfield_image).unwrap();
-
     // Add sampler
     let sampler_idx = gltf_samplers.len();
     gltf_samplers.push(json!({
@@ -685,7 +697,7 @@ fn playfield_material(
 
     // Write image data to binary buffer
     let image_offset = bin_data.len();
-    bin_data.extend_from_slice(&image_bytes);
+    bin_data.extend_from_slice(image_bytes);
     let image_length = image_bytes.len();
 
     // Pad to 4-byte alignment for next data
@@ -1976,10 +1988,13 @@ fn build_combined_gltf_payload(
     let mut buffer_views = Vec::new();
 
     // Add playfield material with texture if available
-    if let Some(image) = playfield_image {
+    if let Some(image) = playfield_image
+        && let Some(image_bytes) = get_image_bytes(image)
+    {
         let pf_material = playfield_material(
             vpx,
             image,
+            &image_bytes,
             playfield_material_name,
             materials,
             &mut gltf_samplers,
-- 
2.43.0


From 8f253076a3d9f6a94226c80e4cdab3889f3840de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:24 +0000
Subject: [PATCH 32/51] fix: factors of glTF materials stay in the range the
 format allows

An opacity, roughness, flasher alpha or light transmission outside 0-1 was
written as it is, which makes the file invalid.
---
 src/gltf.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/gltf.rs b/src/gltf.rs
index ff26d84..abd85e9 100644
--- a/src/gltf.rs
+++ b/src/gltf.rs
@@ -70,6 +70,15 @@ pub struct MaterialExtensions {
     pub transmission: TransmissionExtension,
 }
 
+/// The glTF specification requires material factors to be in the 0-1 range.
+fn unit_factor(value: f32) -> f32 {
+    if value.is_nan() {
+        0.0
+    } else {
+        value.clamp(0.0, 1.0)
+    }
+}
+
 /// A builder for creating glTF material JSON with serde serialization.
 ///
 /// This provides a fluent builder API for constructing glTF material definitions
@@ -122,8 +131,8 @@ impl GltfMaterialBuilder {
             pbr_metallic_roughness: PbrMetallicRoughness {
                 base_color_factor: None,
                 base_color_texture: None,
-                metallic_factor: metallic,
-                roughness_factor: roughness,
+                metallic_factor: unit_factor(metallic),
+                roughness_factor: unit_factor(roughness),
             },
             alpha_mode: None,
             alpha_cutoff: None,
@@ -137,7 +146,7 @@ impl GltfMaterialBuilder {
     ///
     /// This color is multiplied with the base color texture if one is set.
     pub fn base_color(mut self, color: [f32; 4]) -> Self {
-        self.pbr_metallic_roughness.base_color_factor = Some(color);
+        self.pbr_metallic_roughness.base_color_factor = Some(color.map(unit_factor));
         self
     }
 
@@ -223,7 +232,7 @@ impl GltfMaterialBuilder {
     pub fn transmission(mut self, factor: f32) -> Self {
         self.extensions = Some(MaterialExtensions {
             transmission: TransmissionExtension {
-                transmission_factor: factor,
+                transmission_factor: unit_factor(factor),
             },
         });
         self
-- 
2.43.0


From a3854d015af7f2244c12e1f3502e33fd189cf147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:36 +0000
Subject: [PATCH 33/51] fix: glTF meshes get their own material however it is
 referred to

Material names are case-insensitive and a material may only exist in the
legacy list, both of which left meshes without one. Meshes whose image is
missing lost their material as well, and those sharing the playfield's
material were given the playfield's texture.
---
 src/vpx/export/gltf_export.rs | 105 +++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 47 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 6bf2ebd..f0a1ecc 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -427,33 +427,48 @@ fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
             };
             materials.insert(mat.name.clone(), gltf_mat);
         }
-    } else {
-        // Fall back to old format
-        for mat in &vpx.gamedata.materials_old {
-            // opacity_active is encoded in the lowest bit of opacity_active_edge_alpha
-            let opacity_active = (mat.opacity_active_edge_alpha & 1) != 0;
-            let gltf_mat = GltfMaterial {
-                name: mat.name.clone(),
-                base_color: [
-                    mat.base_color.r as f32 / 255.0,
-                    mat.base_color.g as f32 / 255.0,
-                    mat.base_color.b as f32 / 255.0,
-                    if opacity_active { mat.opacity } else { 1.0 },
-                ],
-                metallic: if mat.is_metal { 1.0 } else { 0.0 },
-                // VPinball roughness: 0=diffuse(matte)..1=specular(shiny)
-                // glTF roughness: 0=specular(shiny)..1=diffuse(matte)
-                // So we invert: glTF_roughness = 1.0 - VPX_roughness
-                roughness: 1.0 - mat.roughness,
-                opacity_active,
-            };
-            materials.insert(mat.name.clone(), gltf_mat);
+    }
+
+    // Fall back to old format for the materials the new format does not have
+    for mat in &vpx.gamedata.materials_old {
+        if vpx.gamedata.materials.is_some()
+            && materials
+                .keys()
+                .any(|name: &String| name.eq_ignore_ascii_case(&mat.name))
+        {
+            continue;
         }
+        // opacity_active is encoded in the lowest bit of opacity_active_edge_alpha
+        let opacity_active = (mat.opacity_active_edge_alpha & 1) != 0;
+        let gltf_mat = GltfMaterial {
+            name: mat.name.clone(),
+            base_color: [
+                mat.base_color.r as f32 / 255.0,
+                mat.base_color.g as f32 / 255.0,
+                mat.base_color.b as f32 / 255.0,
+                if opacity_active { mat.opacity } else { 1.0 },
+            ],
+            metallic: if mat.is_metal { 1.0 } else { 0.0 },
+            // VPinball roughness: 0=diffuse(matte)..1=specular(shiny)
+            // glTF roughness: 0=specular(shiny)..1=diffuse(matte)
+            // So we invert: glTF_roughness = 1.0 - VPX_roughness
+            roughness: 1.0 - mat.roughness,
+            opacity_active,
+        };
+        materials.insert(mat.name.clone(), gltf_mat);
     }
 
     materials
 }
 
+/// Find the name of a material by a reference to it (case-insensitive)
+fn find_material_name<'a>(
+    materials: &'a BTreeMap<String, GltfMaterial>,
+    name: &str,
+) -> Option<&'a String> {
+    materials.keys().find(|n| n.eq_ignore_ascii_case(name))
+}
+
 /// Find an image by name (case-insensitive)
 ///
 /// VPinball image references are case-insensitive, so this function
@@ -733,7 +748,9 @@ fn playfield_material(
     // Add playfield material with texture
     // Note: VPinball's playfield reflections are a separate screen-space effect
     // controlled by `playfield_reflection_strength`. See calculate_playfield_roughness().
-    let material_roughness = materials.get(playfield_material_name).map(|m| m.roughness);
+    let material_roughness = find_material_name(materials, playfield_material_name)
+        .and_then(|name| materials.get(name))
+        .map(|m| m.roughness);
     let fallback_roughness = material_roughness.unwrap_or(0.5);
     let reflection_strength = vpx.gamedata.playfield_reflection_strength;
     let playfield_roughness =
@@ -985,15 +1002,8 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 // (`!mat->m_bOpacityActive`). Look the material up;
                 // missing/empty falls through to opaque (vpinball's
                 // dummy material defaults `m_bOpacityActive = false`).
-                let material_opacity_active = vpx
-                    .gamedata
-                    .materials
-                    .as_ref()
-                    .and_then(|mats| {
-                        mats.iter()
-                            .find(|m| m.name.eq_ignore_ascii_case(&ramp.material))
-                    })
-                    .is_some_and(|m| m.opacity_active);
+                let material_opacity_active = lookup_material_opacity(vpx, &ramp.material)
+                    .is_some_and(|(opacity_active, _)| opacity_active);
                 if let Some((vertices, indices)) =
                     build_ramp_mesh(ramp, &table_dims, detail_level, material_opacity_active)
                 {
@@ -2003,15 +2013,11 @@ fn build_combined_gltf_payload(
             &mut buffer_views,
             &mut bin_data,
         );
-        material_index_map.insert(playfield_material_name.to_string(), gltf_materials.len());
+        // Not registered by name: other meshes may use the same material, but not the texture
         gltf_materials.push(pf_material);
     }
 
     for (name, mat) in materials {
-        // Skip if we already added a playfield material with texture
-        if material_index_map.contains_key(name) {
-            continue;
-        }
         material_index_map.insert(name.clone(), gltf_materials.len());
 
         // Note: VPinball's glossy_color affects specular highlights from lights,
@@ -2586,18 +2592,14 @@ fn build_combined_gltf_payload(
         // Check mesh_material_map first (for meshes with color tint - unique materials)
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
-        } else if let Some(ref texture_name) = mesh.texture_name {
+        } else if let Some(&mat_idx) = mesh
+            .texture_name
+            .as_ref()
+            .and_then(|name| texture_material_map.get(&name.to_lowercase()))
+        {
             // Prioritize texture-based material when mesh has a texture
             // This ensures the texture is applied even if the mesh also has a material_name
-            let texture_key = texture_name.to_lowercase();
-            if let Some(&mat_idx) = texture_material_map.get(&texture_key) {
-                primitive["material"] = json!(mat_idx);
-            } else {
-                warn!(
-                    "Texture material for '{}' not found for mesh '{}', no material will be applied",
-                    texture_name, mesh.name
-                );
-            }
+            primitive["material"] = json!(mat_idx);
         } else if let Some(ref mat_name) = mesh.material_name {
             if let Some(&mat_idx) = material_index_map.get(mat_name) {
                 // Fall back to VPX material only if there's no texture
@@ -3187,7 +3189,7 @@ pub fn export_gltf(
     fs: &dyn FileSystem,
     options: &GltfExportOptions,
 ) -> io::Result<()> {
-    let (meshes, item_groups) = collect_meshes(vpx, options);
+    let (mut meshes, item_groups) = collect_meshes(vpx, options);
 
     if meshes.is_empty() {
         return Err(io::Error::new(
@@ -3199,6 +3201,15 @@ pub fn export_gltf(
     // Collect materials from gamedata
     let materials = collect_materials(vpx);
 
+    // Material references are case-insensitive, make them match the material's own name
+    for material_name in meshes.iter_mut().filter_map(|m| m.material_name.as_mut()) {
+        if !materials.contains_key(material_name)
+            && let Some(name) = find_material_name(&materials, material_name)
+        {
+            *material_name = name.clone();
+        }
+    }
+
     // Find playfield image
     let playfield_image = find_playfield_image(vpx);
 
-- 
2.43.0


From 02599b6730c5e80c8a1ca9fb7469a4f387e0bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:44 +0000
Subject: [PATCH 34/51] fix: OBJ export writes the sides of walls that have no
 top, and the other way around

With both parts visible, a wall whose top cannot be triangulated was left out
altogether.
---
 src/vpx/export/obj_export.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index fb51d96..cc6a12c 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -648,7 +648,10 @@ fn write_wall<O: ObjWriter<f32>, M: MtlWriter<f32>>(
                 },
             )?;
         }
-        (true, true, Some((top_v, top_i)), Some((side_v, side_i))) => {
+        (true, true, top, side) => {
+            // A degenerate wall may have only one of the two, empty blocks are not written
+            let (top_v, top_i) = top.unwrap_or_default();
+            let (side_v, side_i) = side.unwrap_or_default();
             // Two output strategies, picked at runtime:
             //
             // - `extract_textures = false` (vpinball-strict): emit a
-- 
2.43.0


From 993203fdfa6b7dca9679883ce5a23d911b69764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 35/51] fix: names of items, materials and images cannot break
 an OBJ export

A line break in a name ended the statement it was part of, and the extension
or length of an image's name could make its file impossible to write.
---
 src/vpx/expanded/util.rs     |  6 +++---
 src/vpx/export/obj_export.rs | 36 ++++++++++++++++++------------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 6c85966..c868d47 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -35,7 +35,7 @@ pub(super) fn truncate_utf8(mut s: String, max_len: usize) -> String {
 /// The file name a component is stored under.
 ///
 /// The extension comes from the original path stored in the vpx file and can not be trusted
-pub(super) fn component_file_name(file_stem: &str, ext: &str) -> String {
+pub(crate) fn component_file_name(file_stem: &str, ext: &str) -> String {
     let ext = truncate_utf8(sanitize_filename(ext), MAX_FILE_EXT_LEN);
     format!("{file_stem}.{ext}")
 }
@@ -54,13 +54,13 @@ pub(super) fn fold_case(name: &str) -> String {
 /// Hands out file names (without extension) that are valid and unique, also on case-insensitive
 /// file systems.
 #[derive(Default)]
-pub(super) struct UniqueFileStems {
+pub(crate) struct UniqueFileStems {
     used_lowercase: HashSet<String>,
     dupe_counter: usize,
 }
 
 impl UniqueFileStems {
-    pub(super) fn file_stem(&mut self, name: &str) -> String {
+    pub(crate) fn file_stem(&mut self, name: &str) -> String {
         let sanitized = truncate_utf8(sanitize_filename(name), MAX_FILE_STEM_LEN);
         let mut stem = sanitized.clone();
         while !self.used_lowercase.insert(fold_case(&stem)) {
diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index cc6a12c..b6a1545 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -36,7 +36,7 @@ use crate::filesystem::FileSystem;
 use crate::vpx::TableDimensions;
 use crate::vpx::VPX;
 use crate::vpx::color::Color;
-use crate::vpx::expanded::util::sanitize_filename;
+use crate::vpx::expanded::util::{UniqueFileStems, component_file_name, sanitize_filename};
 use crate::vpx::gameitem::GameItemEnum;
 use crate::vpx::gameitem::primitive::{Primitive, VertexWrapper};
 use crate::vpx::image::ImageData;
@@ -261,11 +261,10 @@ struct WriterState<'a> {
     /// Mapping from VPX image name (case-preserving) to the on-disk file
     /// name inside `images/`. Populated lazily as textures are referenced.
     image_filenames: HashMap<String, String>,
-    /// Lowercased image filenames already taken inside `images/`. Used to
+    /// Image filenames already taken inside `images/`. Used to
     /// detect collisions on case-insensitive filesystems and append a
     /// `_dedup<n>` suffix, mirroring `expanded::images::write_images`.
-    used_lower_filenames: HashSet<String>,
-    image_dedup_counter: u32,
+    image_file_stems: UniqueFileStems,
     /// VPX image names already written to disk. Skip subsequent encounters.
     images_written: HashSet<String>,
     /// Whether to dedup `newmtl` blocks in the MTL file. See
@@ -299,8 +298,7 @@ impl<'a> WriterState<'a> {
             detail_level: vpx.gamedata.effective_detail_level(),
             face_offset: 0,
             image_filenames: HashMap::new(),
-            used_lower_filenames: HashSet::new(),
-            image_dedup_counter: 0,
+            image_file_stems: UniqueFileStems::default(),
             images_written: HashSet::new(),
             dedup_mtl_blocks: options.dedup_mtl_blocks,
             extract_textures: options.extract_textures,
@@ -1278,7 +1276,7 @@ fn write_block<O: ObjWriter<f32>, M: MtlWriter<f32>>(
         return Ok(());
     }
 
-    obj.write_object_name(block.name)?;
+    obj.write_object_name(without_control_chars(block.name))?;
 
     // Positions: world = local + translation; obj_z = -world_z; scale to chosen unit.
     let s = state.position_scale;
@@ -1435,7 +1433,17 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
 
 /// Match VPinball's `WriteMaterial` (`std::erase(' ')`).
 fn sanitize_material_name(name: &str) -> String {
-    name.chars().filter(|c| *c != ' ').collect()
+    without_control_chars(name)
+        .chars()
+        .filter(|c| *c != ' ')
+        .collect()
+}
+
+/// OBJ and MTL are line based, a line break in a name would end the statement it is part of.
+fn without_control_chars(name: &str) -> String {
+    name.chars()
+        .map(|c| if c.is_control() { '_' } else { c })
+        .collect()
 }
 
 fn write_mtl_block<M: MtlWriter<f32>>(
@@ -1556,16 +1564,8 @@ enum ImagePayload {
 }
 
 fn sanitized_image_filename(state: &mut WriterState, name: &str, ext: &str) -> String {
-    let base = sanitize_filename(name);
-    let mut filename = format!("{}.{}", base, ext);
-    let mut lower = filename.to_lowercase();
-    while state.used_lower_filenames.contains(&lower) {
-        state.image_dedup_counter += 1;
-        filename = format!("{}_dedup{}.{}", base, state.image_dedup_counter, ext);
-        lower = filename.to_lowercase();
-    }
-    state.used_lower_filenames.insert(lower);
-    filename
+    let stem = state.image_file_stems.file_stem(name);
+    component_file_name(&stem, ext)
 }
 
 fn write_image_bmp(
-- 
2.43.0


From 7b70035d04219603a2c2827392340e203540aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 36/51] fix: materials of an OBJ export do not share a name

Names that are equal once spaces or other characters are removed resulted in
two materials of one name, of which every mesh then got one.
---
 src/vpx/export/obj_export.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index b6a1545..52f3047 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -276,6 +276,11 @@ struct WriterState<'a> {
     /// `(material_name, texture_name)` pairs already emitted as a
     /// `newmtl` block. Only consulted when `dedup_mtl_blocks` is true.
     seen_mtl_pairs: HashSet<(String, String)>,
+    /// The `newmtl` name of each material and texture pair. Not used when
+    /// matching vpinball's output, which does not care about clashes.
+    mtl_names: HashMap<(String, String), String>,
+    /// The `newmtl` names taken so far
+    used_mtl_names: HashSet<String>,
     /// Multiplier applied to VPU vertex positions on write. Derived
     /// once from `ObjExportOptions::units`.
     position_scale: f32,
@@ -303,6 +308,8 @@ impl<'a> WriterState<'a> {
             dedup_mtl_blocks: options.dedup_mtl_blocks,
             extract_textures: options.extract_textures,
             seen_mtl_pairs: HashSet::new(),
+            mtl_names: HashMap::new(),
+            used_mtl_names: HashSet::new(),
             position_scale: options.units.scale(),
             include_plunger: options.include_plunger,
         }
@@ -1411,6 +1418,15 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
         sanitize_material_name(material_name)
     };
 
+    // Sanitizing can make names of different materials the same, keep those apart.
+    let mtl_name = if state.dedup_mtl_blocks || state.extract_textures {
+        let texture = texture_name.filter(|_| state.extract_textures);
+        let key = (material_name.to_string(), texture.unwrap_or("").to_string());
+        unique_mtl_name(state, key, mtl_name)
+    } else {
+        mtl_name
+    };
+
     // With unique-per-pair names, the same pair would otherwise emit
     // identical `newmtl` blocks every time the same item-style
     // recurs. Force dedup whenever we extract textures so we only
@@ -1431,6 +1447,22 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
     Ok(mtl_name)
 }
 
+/// The name for a material and texture pair: `base`, or a variation of it if another pair
+/// has that name.
+fn unique_mtl_name(state: &mut WriterState, key: (String, String), base: String) -> String {
+    if let Some(name) = state.mtl_names.get(&key) {
+        return name.clone();
+    }
+    let mut name = base.clone();
+    let mut counter = 1;
+    while !state.used_mtl_names.insert(name.clone()) {
+        counter += 1;
+        name = format!("{base}_{counter}");
+    }
+    state.mtl_names.insert(key, name.clone());
+    name
+}
+
 /// Match VPinball's `WriteMaterial` (`std::erase(' ')`).
 fn sanitize_material_name(name: &str) -> String {
     without_control_chars(name)
-- 
2.43.0


From 66a9025c828b590ce02a832f397d647ff2226045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:50 +0000
Subject: [PATCH 37/51] fix: rubbers whose drag points coincide do not break
 extraction and export

---
 src/vpx/mesh/rubbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/mesh/rubbers.rs b/src/vpx/mesh/rubbers.rs
index 684d9c1..deab5b2 100644
--- a/src/vpx/mesh/rubbers.rs
+++ b/src/vpx/mesh/rubbers.rs
@@ -121,7 +121,7 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
     let (_, middle_points) =
         get_spline_vertex(&rubber.drag_points, rubber.thickness as f32, accuracy);
 
-    let num_rings = middle_points.len() - 1; // splinePoints - 1
+    let num_rings = middle_points.len().saturating_sub(1); // splinePoints - 1
     if num_rings < 1 {
         return None;
     }
-- 
2.43.0


From 70dc8977c964677c6421200eb6d4f7c7682b16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:52 +0000
Subject: [PATCH 38/51] fix: exported flippers stand on their surface

---
 src/vpx/export/gltf_export.rs | 7 +++++--
 src/vpx/export/obj_export.rs  | 3 ++-
 src/vpx/mesh/flippers/mod.rs  | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index f0a1ecc..d883c30 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1119,8 +1119,11 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !flipper.is_visible {
                     continue;
                 }
-                // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
+                let surface_height =
+                    get_surface_height(vpx, &flipper.surface, flipper.center.x, flipper.center.y);
+                if let Some(flipper_meshes) =
+                    build_flipper_meshes_unchecked(flipper, surface_height)
+                {
                     let group_info = item_group_info_for(item_idx, flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 52f3047..d8e6712 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -985,7 +985,8 @@ fn write_flipper<O: ObjWriter<f32>, M: MtlWriter<f32>>(
     flipper: &crate::vpx::gameitem::flipper::Flipper,
 ) -> io::Result<()> {
     // VPinball's `Flipper::ExportMesh` has no `m_d.m_visible` guard.
-    let Some(meshes) = build_flipper_meshes_unchecked(flipper, 0.0) else {
+    let surface_height = state.surface_height(&flipper.surface, flipper.center.x, flipper.center.y);
+    let Some(meshes) = build_flipper_meshes_unchecked(flipper, surface_height) else {
         return Ok(());
     };
     let translation = meshes.center;
diff --git a/src/vpx/mesh/flippers/mod.rs b/src/vpx/mesh/flippers/mod.rs
index da2f519..dba31c4 100644
--- a/src/vpx/mesh/flippers/mod.rs
+++ b/src/vpx/mesh/flippers/mod.rs
@@ -608,7 +608,7 @@ pub(crate) fn build_flipper_meshes_unchecked(
         let mut vert = Vertex3dNoTex2 {
             x: rotated.x,
             y: rotated.y,
-            z: rotated.z * flipper.height + surface_height,
+            z: rotated.z * flipper.height,
             nx: FLIPPER_BASE_MESH[i].nx,
             ny: FLIPPER_BASE_MESH[i].ny,
             nz: FLIPPER_BASE_MESH[i].nz,
@@ -739,7 +739,7 @@ pub(crate) fn build_flipper_meshes_unchecked(
             let mut vert = Vertex3dNoTex2 {
                 x: rotated.x,
                 y: rotated.y,
-                z: rotated.z * rubber_width + (surface_height + rubber_height),
+                z: rotated.z * rubber_width + rubber_height,
                 nx: FLIPPER_BASE_MESH[i].nx,
                 ny: FLIPPER_BASE_MESH[i].ny,
                 nz: FLIPPER_BASE_MESH[i].nz,
-- 
2.43.0


From 3aa790f912d2533ee04ccb745a12a420b7b330ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:52 +0000
Subject: [PATCH 39/51] fix: a flipper without length and with equal radii has
 no NaN vertices

---
 src/vpx/mesh/flippers/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/flippers/mod.rs b/src/vpx/mesh/flippers/mod.rs
index dba31c4..1870c38 100644
--- a/src/vpx/mesh/flippers/mod.rs
+++ b/src/vpx/mesh/flippers/mod.rs
@@ -201,7 +201,12 @@ pub fn build_flipper_mesh(
     // Calculate angle needed to fix P0 location
     let sin_angle =
         ((flipper.base_radius - flipper.end_radius) / flipper.flipper_radius_max).clamp(-1.0, 1.0);
-    let fix_angle = sin_angle.asin();
+    // no angle for a flipper without length whose radii are equal
+    let fix_angle = if sin_angle.is_nan() {
+        0.0
+    } else {
+        sin_angle.asin()
+    };
     let fix_angle_scale = fix_angle / (PI * 0.5);
 
     let base_radius = flipper.base_radius - rubber_thickness;
@@ -519,7 +524,12 @@ pub(crate) fn build_flipper_meshes_unchecked(
     // Calculate angle needed to fix P0 location
     let sin_angle =
         ((flipper.base_radius - flipper.end_radius) / flipper.flipper_radius_max).clamp(-1.0, 1.0);
-    let fix_angle = sin_angle.asin();
+    // no angle for a flipper without length whose radii are equal
+    let fix_angle = if sin_angle.is_nan() {
+        0.0
+    } else {
+        sin_angle.asin()
+    };
     let fix_angle_scale = fix_angle / (PI * 0.5);
 
     let base_radius = flipper.base_radius - rubber_thickness;
-- 
2.43.0


From f600071598e3174b0823dba099c0da1585c0f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:52 +0000
Subject: [PATCH 40/51] fix: the normals of the bumper skirt have unit length

---
 src/vpx/mesh/bumpers/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vpx/mesh/bumpers/mod.rs b/src/vpx/mesh/bumpers/mod.rs
index 7b36948..a3657ac 100644
--- a/src/vpx/mesh/bumpers/mod.rs
+++ b/src/vpx/mesh/bumpers/mod.rs
@@ -139,11 +139,14 @@ fn generate_socket_mesh(bumper: &Bumper, full_matrix: &Mat3) -> (Vec<VertexWrapp
                 z: v.z,
             });
 
-            let norm = full_matrix.multiply_vector_no_translate(Vec3 {
-                x: v.nx,
-                y: v.ny,
-                z: v.nz,
-            });
+            // Not all normals of the VPinball mesh are unit length
+            let norm = full_matrix
+                .multiply_vector_no_translate(Vec3 {
+                    x: v.nx,
+                    y: v.ny,
+                    z: v.nz,
+                })
+                .normalize();
 
             VertexWrapper::new(
                 [0u8; 32],
-- 
2.43.0


From d71c3b062b0c57c1024de5b7b0595572a9cb610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:52 +0000
Subject: [PATCH 41/51] fix: generated vertices without a face of any area get
 a unit normal

---
 src/vpx/mesh/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index e5d726e..53e7a4d 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -151,6 +151,9 @@ pub(super) fn compute_normals(vertices: &mut [Vertex3dNoTex2], indices: &[u32])
             v.nx /= len;
             v.ny /= len;
             v.nz /= len;
+        } else {
+            // no face with an area, or faces that face each other
+            v.nz = 1.0;
         }
     }
 }
-- 
2.43.0


From 5c94d574d7a3c09eb39944e1a1152f5bfa842423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:52 +0000
Subject: [PATCH 42/51] fix: smoothing a curve through far away or non-finite
 drag points ends

---
 src/vpx/mesh/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index 53e7a4d..2e11dfb 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -279,6 +279,10 @@ pub(super) fn flat_with_accuracy_2d(
     dblarea * dblarea < accuracy
 }
 
+/// The smallest part of a curve that is split further. Curves through points that are too
+/// far away for the precision of their coordinates never look flat.
+const MIN_CURVE_STEP: f32 = 1.0 / 1024.0;
+
 /// Recursively subdivide a 2D curve segment until it's flat enough
 pub(super) fn recurse_smooth_line_2d(
     cc: &CatmullCurve2D,
@@ -298,7 +302,8 @@ pub(super) fn recurse_smooth_line_2d(
         ..Default::default()
     };
 
-    if flat_with_accuracy_2d(vt1, vt2, &vmid, accuracy) {
+    let last = t2 - t1 <= MIN_CURVE_STEP || !(x.is_finite() && y.is_finite());
+    if last || flat_with_accuracy_2d(vt1, vt2, &vmid, accuracy) {
         vv.push(*vt1);
     } else {
         recurse_smooth_line_2d(cc, t1, t_mid, vt1, &vmid, vv, accuracy);
@@ -571,7 +576,8 @@ pub(super) fn recurse_smooth_line_3d(
         ..Default::default()
     };
 
-    if flat_with_accuracy_3d(vt1, vt2, &vmid, accuracy) {
+    let last = t2 - t1 <= MIN_CURVE_STEP || !(x.is_finite() && y.is_finite() && z.is_finite());
+    if last || flat_with_accuracy_3d(vt1, vt2, &vmid, accuracy) {
         vv.push(*vt1);
     } else {
         recurse_smooth_line_3d(cc, t1, t_mid, vt1, &vmid, vv, accuracy);
-- 
2.43.0


From 6db00e2d0a965ebb9af017fda2df217d67d9097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 43/51] fix: plunger tips without length or with unreadable
 points have finite coordinates

---
 src/vpx/mesh/plungers/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index 868b09b..7f46e59 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -123,6 +123,8 @@ fn parse_tip_shape(tip_shape: &str) -> Vec<TipShapePoint> {
         let parts: Vec<&str> = segment.split_whitespace().collect();
         if parts.len() >= 2
             && let (Ok(y), Ok(r)) = (parts[0].parse::<f32>(), parts[1].parse::<f32>())
+            && y.is_finite()
+            && r.is_finite()
         {
             // Multiply r by 0.5 as VPinball does during parsing
             points.push(TipShapePoint { y, r: r * 0.5 });
@@ -901,7 +903,11 @@ fn generate_tip_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
         normals_list.push(normals);
         // VPinball texture mapping: tip uses tv 0.0 to 0.24
         // tv = 0.24 * point.y / tip_len
-        let tv = 0.24 * point.y / tip_len;
+        let tv = if tip_len != 0.0 {
+            0.24 * point.y / tip_len
+        } else {
+            0.0
+        };
         tv_values.push(tv);
     }
 
-- 
2.43.0


From 42606a14a3ddd04017613cb497105a6622f1fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 44/51] fix: plunger springs without a diameter have finite
 coordinates

---
 src/vpx/mesh/plungers/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index 7f46e59..62b2ed5 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -653,7 +653,11 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
         let by = tz * up.0 - tx * up.2;
         let bz = tx * up.1 - ty * up.0;
         let b_len = (bx * bx + by * by + bz * bz).sqrt();
-        let (bx, by, bz) = (bx / b_len, by / b_len, bz / b_len);
+        let (bx, by, bz) = if b_len > 0.0 {
+            (bx / b_len, by / b_len, bz / b_len)
+        } else {
+            (0.0, 0.0, 1.0)
+        };
 
         // normal = binormal x tangent
         let nx = by * tz - bz * ty;
-- 
2.43.0


From 2c949c4b8927009fcf2899c64142caf91fa43e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 45/51] fix: plungers without a spring or a tip get no empty
 mesh for it

---
 src/vpx/mesh/plungers/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index 62b2ed5..b18c5f6 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -975,13 +975,15 @@ pub(crate) fn build_plunger_meshes_unchecked(plunger: &Plunger) -> PlungerMeshes
             }
         }
         PlungerType::Modern | PlungerType::Custom => {
-            // Modern/Custom plunger: rod + spring + ring + tip
+            // Modern/Custom plunger: rod + spring + ring + tip.
+            // A spring without loops or a tip without shape has nothing to show.
+            let not_empty = |mesh: &(Vec<VertexWrapper>, Vec<VpxFace>)| !mesh.1.is_empty();
             PlungerMeshes {
                 flat_rod: None,
                 rod: Some(generate_rod_mesh(plunger)),
-                spring: Some(generate_spring_mesh(plunger)),
+                spring: Some(generate_spring_mesh(plunger)).filter(not_empty),
                 ring: Some(generate_ring_mesh(plunger)),
-                tip: Some(generate_tip_mesh(plunger)),
+                tip: Some(generate_tip_mesh(plunger)).filter(not_empty),
             }
         }
     }
-- 
2.43.0


From 2f7210377528749d9af84cf497f87db56934885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 46/51] fix: plunger tips with many points do not overflow
 their indices

---
 src/vpx/mesh/plungers/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index b18c5f6..5470a95 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -207,10 +207,10 @@ fn connect_rings(
     ring2: &[(f32, f32, f32)],
     normals1: &[(f32, f32, f32)],
     normals2: &[(f32, f32, f32)],
-    base_index: u16,
+    base_index: i64,
     tv1: f32,
     tv2: f32,
-) -> u16 {
+) -> i64 {
     let n = ring1.len();
     let step_u = 1.0 / n as f32;
 
@@ -260,16 +260,16 @@ fn connect_rings(
 
     // Connect with triangles
     for i in 0..n {
-        let i0 = base_index + i as u16;
-        let i1 = base_index + ((i + 1) % n) as u16;
-        let i2 = base_index + n as u16 + i as u16;
-        let i3 = base_index + n as u16 + ((i + 1) % n) as u16;
+        let i0 = base_index + i as i64;
+        let i1 = base_index + ((i + 1) % n) as i64;
+        let i2 = base_index + n as i64 + i as i64;
+        let i3 = base_index + n as i64 + ((i + 1) % n) as i64;
 
-        indices.push(VpxFace::new(i0 as i64, i2 as i64, i1 as i64));
-        indices.push(VpxFace::new(i1 as i64, i2 as i64, i3 as i64));
+        indices.push(VpxFace::new(i0, i2, i1));
+        indices.push(VpxFace::new(i1, i2, i3));
     }
 
-    base_index + (2 * n) as u16
+    base_index + (2 * n) as i64
 }
 
 /// Generate a flat plunger rod mesh
@@ -353,7 +353,7 @@ fn add_disc_cap(
     normal: (f32, f32, f32),
     tv_base: f32,
 ) {
-    let base_index = vertices.len() as u16;
+    let base_index = vertices.len() as i64;
     let n = ring.len();
 
     // Calculate center of the ring
@@ -398,13 +398,13 @@ fn add_disc_cap(
     // Create fan triangles
     for i in 0..n {
         let i0 = base_index; // center
-        let i1 = base_index + 1 + i as u16;
-        let i2 = base_index + 1 + ((i + 1) % n) as u16;
+        let i1 = base_index + 1 + i as i64;
+        let i2 = base_index + 1 + ((i + 1) % n) as i64;
 
         if flip {
-            indices.push(VpxFace::new(i0 as i64, i2 as i64, i1 as i64));
+            indices.push(VpxFace::new(i0, i2, i1));
         } else {
-            indices.push(VpxFace::new(i0 as i64, i1 as i64, i2 as i64));
+            indices.push(VpxFace::new(i0, i1, i2));
         }
     }
 }
@@ -473,7 +473,7 @@ fn generate_rod_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
     // VPinball texture mapping: rod/shaft uses tv 0.51 to 0.74 (third quarter)
     // rings[0] is at y_rod_end (towards tip, lower Y) -> tv 0.51
     // rings[last] is at y_rod_start (player side, higher Y) -> tv 0.74
-    let mut base_idx = 0u16;
+    let mut base_idx = 0i64;
     for i in 0..num_segments {
         // Map from 0.51 (tip end) to 0.74 (player end)
         // Rod section spans tv 0.51 to 0.74 (range of 0.23)
@@ -801,7 +801,7 @@ fn generate_ring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
 
     // Connect the rings with proper texture mapping
     // Bottom face (inner to outer) - tv 0.26 to 0.33
-    let mut base_idx = 0u16;
+    let mut base_idx = 0i64;
     base_idx = connect_rings(
         &mut vertices,
         &mut indices,
@@ -917,7 +917,7 @@ fn generate_tip_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>) {
 
     // Connect all rings using the VPinball-style tv coordinates
     // VPinball does NOT add a cap - it's just the lathe surface
-    let mut base_idx = 0u16;
+    let mut base_idx = 0i64;
     for i in 0..rings.len() - 1 {
         base_idx = connect_rings(
             &mut vertices,
-- 
2.43.0


From db296905cf00f79def42970da3e048c7f2dcc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 47/51] fix: ramps on a table without a size have finite
 texture coordinates

---
 src/vpx/mesh/ramps.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/ramps.rs b/src/vpx/mesh/ramps.rs
index ff59077..a08fdec 100644
--- a/src/vpx/mesh/ramps.rs
+++ b/src/vpx/mesh/ramps.rs
@@ -182,8 +182,9 @@ fn build_flat_ramp_mesh(
     // For world-aligned textures, we need to normalize coordinates to table dimensions
     // VPinball: rgv3D[0].tu = rgv3D[0].x * inv_tablewidth
     //           rgv3D[0].tv = rgv3D[0].y * inv_tableheight
-    let inv_table_width = 1.0 / (table_dims.right - table_dims.left);
-    let inv_table_height = 1.0 / (table_dims.bottom - table_dims.top);
+    let inverse = |size: f32| if size == 0.0 { 0.0 } else { 1.0 / size };
+    let inv_table_width = inverse(table_dims.right - table_dims.left);
+    let inv_table_height = inverse(table_dims.bottom - table_dims.top);
     let use_world_coords = ramp.image_alignment == RampImageAlignment::World;
 
     // Generate floor vertices
-- 
2.43.0


From 5996a23d502acef9e56b60e1ef14f67c265838dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 48/51] fix: the normals of wire ramps that run straight up
 have unit length

---
 src/vpx/mesh/ramps.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vpx/mesh/ramps.rs b/src/vpx/mesh/ramps.rs
index a08fdec..9221bc5 100644
--- a/src/vpx/mesh/ramps.rs
+++ b/src/vpx/mesh/ramps.rs
@@ -466,6 +466,9 @@ fn create_wire(
                 vertices[index].nx = n.x / len;
                 vertices[index].ny = n.y / len;
                 vertices[index].nz = n.z / len;
+            } else {
+                // a wire without a thickness or that runs nowhere, facing anywhere
+                vertices[index].nz = 1.0;
             }
         }
     }
-- 
2.43.0


From cd18767495ba4e8addd84bd8094004c739644f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 49/51] fix: the normals of wall sides have unit length

---
 src/vpx/mesh/walls.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/vpx/mesh/walls.rs b/src/vpx/mesh/walls.rs
index 1101dc9..d27cd3a 100644
--- a/src/vpx/mesh/walls.rs
+++ b/src/vpx/mesh/walls.rs
@@ -270,6 +270,19 @@ fn compute_side_texture_coords(
     coords
 }
 
+/// The normal between two edges, the one of the `edge` itself if they face each other.
+fn smooth_normal(normal1: Vec2, normal2: Vec2, edge: Vec2) -> Vec2 {
+    let sum = Vec2 {
+        x: normal1.x + normal2.x,
+        y: normal1.y + normal2.y,
+    };
+    if sum.length() < 1e-6 {
+        edge
+    } else {
+        sum.normalize()
+    }
+}
+
 fn build_side_mesh(
     wall: &Wall,
     points: &[RenderVertex2D],
@@ -286,7 +299,8 @@ fn build_side_mesh(
         let dy = points[i].y - points[next].y;
         let inv_len = (dx * dx + dy * dy).sqrt();
         if inv_len == 0.0 {
-            edge_normals.push(Vec2 { x: 0.0, y: 0.0 });
+            // an edge without a length, facing anywhere
+            edge_normals.push(Vec2 { x: 1.0, y: 0.0 });
         } else {
             edge_normals.push(Vec2 {
                 x: dy / inv_len,
@@ -318,24 +332,16 @@ fn build_side_mesh(
         let prev = if i == 0 { count - 1 } else { i - 1 };
 
         let vnormal0 = if points[i].smooth {
-            Vec2 {
-                x: edge_normals[prev].x + edge_normals[i].x,
-                y: edge_normals[prev].y + edge_normals[i].y,
-            }
+            smooth_normal(edge_normals[prev], edge_normals[i], edge_normals[i])
         } else {
             edge_normals[i]
-        }
-        .normalize();
+        };
 
         let vnormal1 = if points[next].smooth {
-            Vec2 {
-                x: edge_normals[i].x + edge_normals[next].x,
-                y: edge_normals[i].y + edge_normals[next].y,
-            }
+            smooth_normal(edge_normals[i], edge_normals[next], edge_normals[i])
         } else {
             edge_normals[i]
-        }
-        .normalize();
+        };
 
         let offset = i * 4;
         let pv1 = &points[i];
-- 
2.43.0


From ecd3ed8ea7139d9b6f6458877331851336c675de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:39 +0000
Subject: [PATCH 50/51] fix: the styles of a font have the documented bits

---
 src/vpx/gameitem/font.rs | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/vpx/gameitem/font.rs b/src/vpx/gameitem/font.rs
index 25b2571..cd03d56 100644
--- a/src/vpx/gameitem/font.rs
+++ b/src/vpx/gameitem/font.rs
@@ -47,31 +47,25 @@ pub enum FontStyle {
 impl FontStyle {
     fn to_bitflag(&self) -> u8 {
         match self {
-            FontStyle::Normal => 1 << 0,
-            FontStyle::Bold => 1 << 1,
-            FontStyle::Italic => 1 << 2,
-            FontStyle::Underline => 1 << 3,
-            FontStyle::Strikethrough => 1 << 4,
+            FontStyle::Bold => 1 << 0,
+            FontStyle::Italic => 1 << 1,
+            FontStyle::Underline => 1 << 2,
+            FontStyle::Strikethrough => 1 << 3,
+            // not a flag of its own in the format, takes the next free bit to not lose it
+            FontStyle::Normal => 1 << 4,
         }
     }
     pub fn flags_to_styles(style: u8) -> HashSet<Self> {
-        let mut styles = HashSet::with_capacity(5);
-        if style & (1 << 0) != 0 {
-            styles.insert(Self::Normal);
-        }
-        if style & (1 << 1) != 0 {
-            styles.insert(Self::Bold);
-        }
-        if style & (1 << 2) != 0 {
-            styles.insert(Self::Italic);
-        }
-        if style & (1 << 3) != 0 {
-            styles.insert(Self::Underline);
-        }
-        if style & (1 << 4) != 0 {
-            styles.insert(Self::Strikethrough);
-        }
-        styles
+        [
+            Self::Normal,
+            Self::Bold,
+            Self::Italic,
+            Self::Underline,
+            Self::Strikethrough,
+        ]
+        .into_iter()
+        .filter(|s| style & s.to_bitflag() != 0)
+        .collect()
     }
 
     pub fn styles_to_flags(flags: &HashSet<Self>) -> u8 {
-- 
2.43.0


From 994a95d2a1a417be35ac412993df7d85fe2ee0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:13 +0000
Subject: [PATCH 51/51] fix: glTF items sharing an image took the material of
 the first and lost their opacity

---
 src/vpx/export/gltf_export.rs | 45 ++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index d883c30..0de67b8 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2056,9 +2056,11 @@ fn build_combined_gltf_payload(
     // Track which textures we've already added (by lowercase name) -> texture index
     let mut texture_index_map: HashMap<String, usize> = HashMap::new();
 
-    // Track materials for meshes without color tint (can be shared)
-    // Key: texture name (lowercase), Value: material index
-    let mut texture_material_map: HashMap<String, usize> = HashMap::new();
+    // Track materials for meshes without color tint (can be shared by meshes that also
+    // have the same VPX material)
+    // Key: texture name (lowercase) + material name + whether it is the playfield,
+    // Value: material index
+    let mut texture_material_map: HashMap<(String, Option<String>, bool), usize> = HashMap::new();
 
     // Track whether we use the KHR_materials_transmission extension
     let mut uses_transmission_extension = false;
@@ -2339,7 +2341,7 @@ fn build_combined_gltf_payload(
             }
 
             // No material color tint needed - check if material has metallic properties
-            // If so, create a unique material; otherwise share based on texture only
+            // If so, create a unique material; otherwise share based on texture and material
 
             // Get metallic/roughness from material if available
             let mat_properties = mesh
@@ -2351,12 +2353,12 @@ fn build_combined_gltf_payload(
                         mat.metallic,
                         mat.roughness,
                         mat.opacity_active,
-                        mat.base_color[3],
+                        mat.base_color,
                     )
                 });
 
             // If material has non-default metallic (> 0), create unique material
-            if let Some((metallic, roughness, opacity_active, opacity)) = mat_properties
+            if let Some((metallic, roughness, opacity_active, color)) = mat_properties
                 && metallic > 0.0
             {
                 // Create unique material for this texture + metallic combination
@@ -2367,7 +2369,7 @@ fn build_combined_gltf_payload(
                     let img = image_map.get(&texture_key);
                     let image_has_alpha = img.is_some_and(|i| image_has_transparency(i));
 
-                    let material_has_alpha = opacity_active && opacity < 0.999;
+                    let material_has_alpha = opacity_active && color[3] < 0.999;
 
                     let material_name =
                         format!("{}_{}", mesh.material_name.as_ref().unwrap(), texture_name);
@@ -2375,6 +2377,7 @@ fn build_combined_gltf_payload(
                     // VPinball does BOTH alpha testing AND alpha blending
                     // Use BLEND for any transparency for visual fidelity
                     let mut builder = GltfMaterialBuilder::new(material_name, metallic, roughness)
+                        .base_color(color)
                         .texture(texture_idx)
                         .double_sided();
                     if material_has_alpha || image_has_alpha {
@@ -2386,15 +2389,20 @@ fn build_combined_gltf_payload(
                 continue;
             }
 
-            // No metallic material - can share material based on texture only
-            // Skip if material already exists for this texture
-            if texture_material_map.contains_key(&texture_key) {
+            // No metallic material - can share material based on texture and VPX material
+            // Skip if material already exists for this combination
+            let shared_key = (
+                texture_key.clone(),
+                mesh.material_name.clone(),
+                mesh.is_playfield(),
+            );
+            if texture_material_map.contains_key(&shared_key) {
                 continue;
             }
 
             if let Some(&texture_idx) = texture_index_map.get(&texture_key) {
                 let material_idx = gltf_materials.len();
-                texture_material_map.insert(texture_key.clone(), material_idx);
+                texture_material_map.insert(shared_key, material_idx);
 
                 // Get image alpha info
                 let img = image_map.get(&texture_key);
@@ -2413,6 +2421,9 @@ fn build_combined_gltf_payload(
                 let mut builder = GltfMaterialBuilder::new(&material_name, metallic, roughness)
                     .texture(texture_idx)
                     .double_sided();
+                if let Some((_, _, _, color)) = mat_properties {
+                    builder = builder.base_color(color);
+                }
                 if material_has_alpha || image_has_alpha {
                     builder = builder.alpha_blend();
                 }
@@ -2595,11 +2606,13 @@ fn build_combined_gltf_payload(
         // Check mesh_material_map first (for meshes with color tint - unique materials)
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
-        } else if let Some(&mat_idx) = mesh
-            .texture_name
-            .as_ref()
-            .and_then(|name| texture_material_map.get(&name.to_lowercase()))
-        {
+        } else if let Some(&mat_idx) = mesh.texture_name.as_ref().and_then(|name| {
+            texture_material_map.get(&(
+                name.to_lowercase(),
+                mesh.material_name.clone(),
+                mesh.is_playfield(),
+            ))
+        }) {
             // Prioritize texture-based material when mesh has a texture
             // This ensures the texture is applied even if the mesh also has a material_name
             primitive["material"] = json!(mat_idx);
-- 
2.43.0

