From 9e3167a879595ddfe43bad855d2979b551fa7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 01/43] fix: do not mistake UCS-2 strings starting with a 0x03
 byte for ISRCs
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Strings such as "ăb" (U+0103 ...) were decoded as an ISRC, which yields the
wrong text and reads past the end of the string. Only accept printable ASCII
bodies of exactly the announced length, and only create such ISRCs.
---
 src/pdb/string.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..547b1b8 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -98,7 +98,7 @@ impl DeviceSQLString {
         }
         // basic validation taken from
         // https://isrc.ifpi.org/downloads/ISRC_Bulletin-2015-01.pdf
-        if string.len() != 12 || !string.is_ascii() {
+        if string.len() != 12 || !string.bytes().all(|c| matches!(c, 0x20..=0x7e)) {
             return Err(StringError::InvalidISRC);
         }
         Ok(Self(DeviceSQLStringImpl::Long {
@@ -254,7 +254,11 @@ enum LongBody {
 
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
     // a semi-dirty workaround
+    //
+    // A UCS2LE string can start with the byte 0x3 too (e.g. "ă", U+0103), so only accept the body
+    // as ISRC if it is made up of printable ASCII and takes up exactly the announced length.
     #[br(pre_assert(flags == 0x90))]
+    #[br(assert(is_isrc(&self_0, len)))]
     Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
@@ -263,6 +267,14 @@ enum LongBody {
     Ucs2le(#[br(count = usize::from(len / 2))] Vec<u16>),
 }
 
+/// Checks that `null_str` is a plausible ISRC that fills a string body of `len` bytes (including
+/// the leading magic byte and the trailing null byte).
+fn is_isrc(null_str: &binrw::NullString, len: u16) -> bool {
+    !null_str.is_empty()
+        && null_str.len() + 2 == usize::from(len)
+        && null_str.iter().all(|c| matches!(c, 0x20..=0x7e))
+}
+
 impl LongBody {
     pub fn byte_count(&self) -> Result<u16, StringError> {
         match self {
-- 
2.43.0


From 20652f3f42f7494d260ef22cd1d533d0e79ab9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 02/43] fix: reject strings whose UCS-2 length does not fit the
 length field

A string of 32767 UTF-8 bytes that contains a single non-ASCII character was
accepted, but its length overflowed on write.
---
 src/pdb/string.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 547b1b8..cc0323b 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -70,17 +70,18 @@ impl DeviceSQLString {
                 content: string.as_bytes().to_owned(),
             }))
         } else if len <= (i16::MAX as usize) {
-            if only_ascii {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    content: LongBody::Ascii(string.as_bytes().to_owned()),
-                }))
+            let content = if only_ascii {
+                LongBody::Ascii(string.as_bytes().to_owned())
             } else {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    // note: The DeviceSQL database may only support UCS-2 so
-                    // we might need to do some additional filtering here
-                    content: LongBody::Ucs2le(string.encode_utf16().collect()),
-                }))
+                // note: The DeviceSQL database may only support UCS-2 so
+                // we might need to do some additional filtering here
+                LongBody::Ucs2le(string.encode_utf16().collect())
+            };
+            // The length field also counts the 4 bytes in front of the content.
+            if content.byte_count()? > u16::MAX - 4 {
+                return Err(StringError::TooLong);
             }
+            Ok(Self(DeviceSQLStringImpl::Long { content }))
         } else {
             Err(StringError::TooLong)
         }
-- 
2.43.0


From 1e9b0c7d48e1f372d059e5f8c67fc4977debdfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 03/43] fix: report an error for strings that are shorter than
 their header

The length computations underflowed.
---
 src/pdb/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index cc0323b..b717cac 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -222,7 +222,7 @@ enum DeviceSQLStringImpl {
         // first byte (`header` here, `flags` in Long). If its set, the
         // string being parsed is a of the ShortASCII kind, if its not, its
         // the Long form.
-        #[br(temp, assert(header & 0b1 == 1))]
+        #[br(temp, assert(header & 0b1 == 1 && header >> 1 != 0))]
         #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
         header: u8,
 
@@ -236,7 +236,7 @@ enum DeviceSQLStringImpl {
         #[bw(calc = content.flags())]
         flags: u8,
 
-        #[br(temp)]
+        #[br(temp, assert(length >= 4))]
         #[bw(calc = content.byte_count().unwrap() + 4)]
         length: u16,
 
-- 
2.43.0


From b66c7a252a5d06e9fb886cd3a9680aa6ed1310c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 04/43] fix: do not panic when displaying a string with invalid
 UTF-8 content

The content of strings parsed from a file is not validated, use the lossy
conversion that is also used for UCS-2 content.
---
 src/pdb/string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index b717cac..8616432 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -152,9 +152,8 @@ impl fmt::Display for DeviceSQLString {
                 content: LongBody::Ascii(content),
                 ..
             } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
+                // As for UCS-2 below, strings that were parsed from a file may hold invalid content.
+                f.write_str(&String::from_utf8_lossy(content))
             }
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
-- 
2.43.0


From 598deefd71d43bdfd3e1402ac89542ba422d593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 05/43] fix: refuse row allocations that overflow the page's
 size fields or row counters

---
 src/pdb/bitfields.rs |  8 ++++++++
 src/pdb/mod.rs       | 14 ++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..970ab76 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -43,6 +43,14 @@ impl PackedRowCounts {
             .with_num_rows_valid(num_rows as u16)
     }
 
+    const MAX_NUM_ROWS: u16 = (1 << 13) - 1;
+    const MAX_NUM_ROWS_VALID: u16 = (1 << 11) - 1;
+
+    /// Whether another row can be allocated in the page and marked valid.
+    pub(crate) fn can_increment(&self) -> bool {
+        self.num_rows() < Self::MAX_NUM_ROWS && self.num_rows_valid() < Self::MAX_NUM_ROWS_VALID
+    }
+
     /// Get the number of row groups in the page.
     pub(crate) fn num_row_groups(&self) -> u16 {
         self.num_rows().div_ceil(RowGroup::MAX_ROW_COUNT as u16)
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..cbf4f5c 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -575,18 +575,24 @@ impl Page {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
                 if self.header.free_size < required_bytes {
                     return None;
                 }
 
+                // The row counts in the page header have a limited range as well.
+                let row_counts = &mut self.header.packed_row_counts;
+                if !row_counts.can_increment() {
+                    return None;
+                }
+
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
+                self.header.used_size = offset.checked_add(bytes)?;
                 self.header.free_size -= bytes;
-                let row_counts = &mut self.header.packed_row_counts;
                 row_counts.increment_num_rows();
                 let (row_group_index, row_subindex) = row_counts.last_row_index().unwrap();
 
-- 
2.43.0


From 12268b46095c22ab7daa0ebc34037a5b1d408a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:00 +0000
Subject: [PATCH 06/43] fix: do not panic when formatting an index entry with
 an invalid page index

---
 src/pdb/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index cbf4f5c..027a870 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -304,11 +304,13 @@ impl fmt::Debug for IndexEntry {
                 .field("is_empty", &self.is_empty())
                 .finish()
         } else {
-            f.debug_struct("IndexEntry")
-                .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
-                .field("index_flags", &self.index_flags())
-                .finish()
+            let mut debug = f.debug_struct("IndexEntry");
+            debug.field("is_empty", &self.is_empty());
+            match self.page_index() {
+                Ok(page_index) => debug.field("page_index", &page_index),
+                Err(err) => debug.field("page_index", &err),
+            };
+            debug.field("index_flags", &self.index_flags()).finish()
         }
     }
 }
-- 
2.43.0


From 49d32477bee727e8c51f02e9924b043e28f011dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 07/43] fix: reject index entries whose page index does not fit

---
 src/pdb/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 027a870..35eef9c 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -266,6 +266,8 @@ impl TryFrom<(PageIndex, u8)> for IndexEntry {
         if index_flags & 0b111 != index_flags {
             return Err(PdbError::InvalidIndexFlags(index_flags));
         }
+        // Page indices that were read from a file may be out of range.
+        let page_index = PageIndex::try_from(page_index.0)?;
         Ok(Self((page_index.0 << 3) | (index_flags & 0b111) as u32))
     }
 }
-- 
2.43.0


From 21039346d2b3eedb09909dbe2a507ad101df0406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 08/43] fix: report an error when loading page 0 of a database

---
 src/pdb/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..370b7c2 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -102,10 +102,10 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
-        let page_entry = self
-            .content
-            .pages
-            .get_mut(index.0 as usize - 1)
+        // Page indices are 1-based, so there is no page 0.
+        let page_entry = (index.0 as usize)
+            .checked_sub(1)
+            .and_then(|i| self.content.pages.get_mut(i))
             .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
-- 
2.43.0


From 090e1b29db5033fdbed6362e4e133922193710cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 09/43] fix: report an error for rows of another type instead
 of panicking

---
 src/pdb/io.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 370b7c2..0dd37f4 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -179,9 +179,14 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined from the page type, so an unexpected variant means
+            // that the chain of pages contains a page of another table.
+            .map(|row| {
+                row.as_variant_mut()
+                    .ok_or(RekordcrateError::IntegrityError(
+                        "table contains a page with rows of another type",
+                    ))
+            }))
     }
 
     /// Returns a reference to the PDB header.
-- 
2.43.0


From 5ab041c1f9ff696ed0b44906b12645f09b1b625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 10/43] fix: do not allocate more pages than the database file
 can hold

---
 src/pdb/io.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 0dd37f4..0eaa575 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -35,7 +35,7 @@ struct LazyDatabase {
     #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(parse_with = unloaded_pages, args(&header))]
     #[bw(args(header.page_size))]
     pages: Vec<LazyPage>,
 }
@@ -46,6 +46,25 @@ enum LazyPage {
     Loaded(Page),
 }
 
+/// Returns one unloaded page for each page of the database.
+///
+/// A corrupt header may claim any number of pages, so this is limited by what the file can hold.
+fn unloaded_pages<R: Read + Seek>(
+    reader: &mut R,
+    _: Endian,
+    (header,): (&Header,),
+) -> BinResult<Vec<LazyPage>> {
+    let position = reader.stream_position()?;
+    let file_size = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(position))?;
+    let pages_in_file = file_size.div_ceil(u64::from(header.page_size.max(1)));
+    let num_pages = u64::from(header.next_unused_page.0).min(pages_in_file);
+    Ok(vec![
+        LazyPage::NotLoaded;
+        num_pages.saturating_sub(1) as usize
+    ])
+}
+
 impl BinWrite for LazyPage {
     type Args<'a> = (u32,);
 
-- 
2.43.0


From 3ab34f37cb052242638fe004eca8e88417d70848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 11/43] fix: report an error if a header or index page does not
 fit the page size

---
 src/pdb/io.rs  |  8 ++++----
 src/pdb/mod.rs | 24 ++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 0eaa575..dedd623 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -32,6 +32,7 @@ use std::io::{Read, Seek, Write};
 struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
+    #[br(assert(header.page_size as usize >= header.binary_size(), "page size {} is too small", header.page_size))]
     #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
@@ -201,10 +202,9 @@ impl<R: Read + Seek> Database<R> {
             // The parsed row type is determined from the page type, so an unexpected variant means
             // that the chain of pages contains a page of another table.
             .map(|row| {
-                row.as_variant_mut()
-                    .ok_or(RekordcrateError::IntegrityError(
-                        "table contains a page with rows of another type",
-                    ))
+                row.as_variant_mut().ok_or(RekordcrateError::IntegrityError(
+                    "table contains a page with rows of another type",
+                ))
             }))
     }
 
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 35eef9c..be7e99a 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -226,6 +226,13 @@ pub struct Header {
 }
 
 impl Header {
+    /// Size of the header including the list of tables in bytes.
+    fn binary_size(&self) -> usize {
+        const FIXED_SIZE: usize = 28;
+        const TABLE_SIZE: usize = 16;
+        FIXED_SIZE + TABLE_SIZE * self.tables.len()
+    }
+
     /// Finds the table for a given page type.
     #[must_use]
     pub fn find_table(&self, page_type: PageType) -> Option<(TableIndex, &Table)> {
@@ -360,6 +367,7 @@ impl IndexPageHeader {
 #[derive(Debug, PartialEq, Eq, Clone)]
 #[br(little)]
 #[bw(little, import { page_size: u32 })]
+#[bw(assert(self.fits(page_size), "index entries do not fit into the page"))]
 pub struct IndexPageContent {
     /// The header of the index page.
     pub header: IndexPageHeader,
@@ -372,7 +380,7 @@ pub struct IndexPageContent {
     // 20 bytes which are zeros instead.
     #[br(temp)]
     #[bw(calc = EmptyIndexEntries(
-        Self::total_entries(page_size) - usize::from(header.num_entries)
+        Self::total_entries(page_size).saturating_sub(usize::from(header.num_entries))
     ))]
     #[bw(pad_after = 20)]
     _empty_entries: EmptyIndexEntries,
@@ -381,11 +389,18 @@ pub struct IndexPageContent {
 impl IndexPageContent {
     fn total_entries(page_size: u32) -> usize {
         // The last 20 bytes in an index page are zeros.
-        let entries_space = page_size - PageHeader::BINARY_SIZE - IndexPageHeader::BINARY_SIZE - 20;
+        let entries_space =
+            page_size.saturating_sub(PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20);
         (entries_space / IndexEntry::BINARY_SIZE)
             .try_into()
             .unwrap()
     }
+
+    fn fits(&self, page_size: u32) -> bool {
+        let min_size = PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20;
+        page_size >= min_size
+            && usize::from(self.header.num_entries) <= Self::total_entries(page_size)
+    }
 }
 
 /// Helper struct to write empty index entries while reading nothing.
@@ -439,6 +454,7 @@ pub enum PageContent {
     ),
     /// The page is an index page.
     #[br(pre_assert(header.page_flags.is_index_page()))]
+    #[br(assert(self_0.fits(page_size), "index entries do not fit into the page"))]
     Index(#[bw(args { page_size })] IndexPageContent),
 }
 
@@ -555,6 +571,7 @@ impl PageHeader {
 #[derive(Debug, PartialEq, Clone)]
 #[brw(little)]
 #[br(import(page_size: u32, db_type: DatabaseType))]
+#[br(pre_assert(page_size >= Self::MIN_SIZE, "page size {} is too small", page_size))]
 #[bw(import(page_size: u32))]
 pub struct Page {
     /// The page header.
@@ -568,6 +585,9 @@ pub struct Page {
 }
 
 impl Page {
+    /// Size of the headers of a data page in bytes.
+    const MIN_SIZE: u32 = PageHeader::BINARY_SIZE + DataPageHeader::BINARY_SIZE;
+
     /// Allocate space for a new row in the page heap and return a function to
     /// insert the row at the allocated offset. Returns `None` if there is
     /// insufficient free space in the page.
-- 
2.43.0


From 992e1578a1a9f9f75d5e1a1a92e6f7035084965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 12/43] fix: flush the underlying IO when flushing a database

---
 src/pdb/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index dedd623..50e8947 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -238,6 +238,8 @@ impl<RW: Read + Write + Seek> Database<RW> {
         let endian = Endian::Little;
         self.io.seek(SeekFrom::Start(0))?;
         self.content.write_options(&mut self.io, endian, ())?;
+        // The IO may buffer, so make sure that nothing is lost (without an error) when it is dropped.
+        self.io.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 5693ce80d16affa7b6c55e08c6aa8f5c1b388bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 13/43] fix: keep the bytes after the table list when flushing
 a database

---
 src/pdb/io.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 50e8947..49947fc 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -33,11 +33,10 @@ struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
     #[br(assert(header.page_size as usize >= header.binary_size(), "page size {} is too small", header.page_size))]
-    #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
     #[br(parse_with = unloaded_pages, args(&header))]
-    #[bw(args(header.page_size))]
+    #[bw(seek_before = SeekFrom::Start(header.page_size.into()), args(header.page_size))]
     pages: Vec<LazyPage>,
 }
 
-- 
2.43.0


From 5691e1efabb84214e631740a0c726bf6d5834460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 14/43] fix: decode the bit fields of color detail and tiny
 preview waveforms as documented

The color detail columns are big-endian 16-bit values with the red component
in the topmost bits, and the height of tiny preview columns is stored in the
low nibble.
---
 src/anlz.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..a80827d 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -506,10 +506,10 @@ impl Default for TinyWaveformPreviewColumn {
 #[br(big, map = Self::from_bytes)]
 #[bw(big, map = |x: &TinyWaveformPreviewColumn| x.into_bytes())]
 pub struct TinyWaveformPreviewColumn {
-    #[allow(dead_code)]
-    unused: B4,
     /// Height of the Column in pixels.
     pub height: B4,
+    #[allow(dead_code)]
+    unused: B4,
 }
 
 /// Single Column value in a Waveform Color Preview.
@@ -546,20 +546,20 @@ impl Default for WaveformColorDetailColumn {
 /// <https://djl-analysis.deepsymmetry.org/rekordbox-export-analysis/anlz.html#color-detail>
 #[bitfield]
 #[derive(BinRead, BinWrite, Debug, PartialEq, Eq, Clone, Copy)]
-#[br(map = Self::from_bytes)]
-#[bw(big, map = |x: &WaveformColorDetailColumn| x.into_bytes())]
+#[br(big, map = |x: u16| Self::from_bytes(x.to_le_bytes()))]
+#[bw(big, map = |x: &WaveformColorDetailColumn| u16::from_le_bytes(x.into_bytes()))]
 pub struct WaveformColorDetailColumn {
-    /// Red color component.
-    pub red: B3,
-    /// Green color component.
-    pub green: B3,
-    /// Blue color component.
-    pub blue: B3,
-    /// Height of the column.
-    pub height: B5,
     /// Unknown field
     #[allow(dead_code)]
     unknown: B2,
+    /// Height of the column.
+    pub height: B5,
+    /// Blue color component.
+    pub blue: B3,
+    /// Green color component.
+    pub green: B3,
+    /// Red color component.
+    pub red: B3,
 }
 
 /// Single Column value in a Waveform 3-Band Preview.
-- 
2.43.0


From affdd2b04d97ef1ffab6066f5b8dd273cd0cf50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 15/43] fix: keep the XOR key in step with the stream on short
 reads and writes

---
 src/xor.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..3e61afa 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,9 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        // The underlying stream may deliver fewer bytes than requested, so only advance the key by
+        // the number of bytes that were actually read.
+        for byte in &mut buf[..bytes_read] {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -52,13 +54,19 @@ impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
         let encrypted_buffer: Vec<u8> = buf
             .iter()
-            .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
-                x ^ key_byte
-            })
+            .zip(self.key.clone())
+            .map(|(byte, key_byte)| byte ^ key_byte)
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+
+        // The underlying stream may accept fewer bytes than requested, so only advance the key by
+        // the number of bytes that were actually written.
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From b676849669d11b0c79340a452f0a5f08abe91e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 16/43] fix: report an error for analysis section headers with
 inconsistent sizes

The size subtractions underflowed.
---
 src/anlz.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index a80827d..a896b2a 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -118,8 +118,10 @@ pub struct Header {
     /// Kind of content in this item.
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= 12))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size))]
     pub total_size: u32,
 }
 
-- 
2.43.0


From 6bc50ca477942dc3bff1ac19ffc79eb5caf45134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 17/43] fix: report an error for waveforms whose entry count
 overflows the section size

---
 src/anlz.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index a896b2a..5e4fa31 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -900,7 +900,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -928,7 +928,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -952,7 +952,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -979,7 +979,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -1001,7 +1001,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
-- 
2.43.0


From 595c7a3aaaaa71bda47a6bef2bf183b498eed720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 18/43] fix: do not overflow when deriving the key of large
 song structures

---
 src/anlz.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 5e4fa31..d6349fa 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1078,10 +1078,10 @@ impl SongStructureData {
 
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
-        Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
-            (value % 256) as u8
-        })
+        let [_, offset] = len_entries.to_be_bytes();
+        Self::KEY_DATA
+            .into_iter()
+            .map(move |x: u8| x.wrapping_add(offset))
     }
 
     /// Returns `true` if the [`SongStructureData`] is encrypted.
-- 
2.43.0


From 1d8d8020c651d133b394262ca3b1f6e3bf4adbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 19/43] fix: report an error for cue lists that do not fit the
 length field

---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index d6349fa..2c1dd45 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -793,7 +793,7 @@ pub struct CueList {
     unknown: u16,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field.
     memory_count: u32,
@@ -813,7 +813,7 @@ pub struct ExtendedCueList {
     pub list_type: CueListType,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field
     #[br(assert(unknown == 0))]
-- 
2.43.0


From 0a8da6eca0da4af25ff267d2a78e8002285bdc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 20/43] fix: keep the stored length of cue comments

Comments without terminator, with an odd length or with more than one trailing
NUL were rewritten with another length, and the trailing bytes of their entry
were taken from the next one. Huge lengths also made the parser allocate memory
for them up front.
---
 src/anlz.rs | 57 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2c1dd45..acc9f91 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -240,7 +240,8 @@ pub struct Cue {
 ///
 /// The binary representation is a `u32` length (in bytes, including the trailing
 /// NUL terminator) followed by that many bytes of UTF-16BE encoded text. The
-/// trailing NUL is stripped on read and appended on write.
+/// trailing NUL is stripped on read and appended on write. A string that consists of nothing but
+/// NULs is kept as is, so that it is not mistaken for an empty string without terminator.
 /// Its binary structure can be visualized as follows:
 ///
 /// ```text
@@ -253,15 +254,16 @@ pub struct Cue {
 pub struct LenPrefixedWideString(pub String);
 
 impl LenPrefixedWideString {
+    /// Returns `true` if the encoded text is followed by a NUL terminator.
+    fn has_terminator(&self) -> bool {
+        self.0.chars().any(|c| c != '\0')
+    }
+
     /// Returns the number of bytes required to encode this string as UTF-16BE
     /// with a trailing NUL terminator (excluding the length prefix).
     #[must_use]
     pub fn byte_len(&self) -> u32 {
-        if self.0.is_empty() {
-            0
-        } else {
-            (self.0.encode_utf16().count() as u32 + 1) * 2
-        }
+        (self.0.encode_utf16().count() as u32 + u32::from(self.has_terminator())) * 2
     }
 }
 
@@ -293,23 +295,36 @@ impl BinRead for LenPrefixedWideString {
         endian: Endian,
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
+        let invalid = |pos, message: &str| binrw::Error::AssertFail {
+            pos,
+            message: message.to_string(),
+        };
+
+        let pos = reader.stream_position()?;
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
-        if len == 0 {
-            return Ok(Self(String::new()));
+        if len % 2 != 0 {
+            return Err(invalid(pos, "length of UTF-16 string is odd"));
+        }
+        // Do not allocate `len` bytes up front, the value may exceed the size of the input.
+        let mut bytes = vec![];
+        reader
+            .by_ref()
+            .take(u64::from(len))
+            .read_to_end(&mut bytes)?;
+        if bytes.len() as u64 != u64::from(len) {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
-        let code_units: Vec<u16> = bytes
+        let mut code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
             .collect();
-        let s = String::from_utf16(&code_units)
-            .map(|s| s.trim_end_matches('\0').to_string())
-            .map_err(|e| binrw::Error::Custom {
-                pos: reader.stream_position().unwrap_or(0),
-                err: Box::new(e),
-            })?;
+        if code_units.iter().any(|&unit| unit != 0) && code_units.pop() != Some(0) {
+            return Err(invalid(pos, "UTF-16 string is not terminated"));
+        }
+        let s = String::from_utf16(&code_units).map_err(|e| binrw::Error::Custom {
+            pos,
+            err: Box::new(e),
+        })?;
         Ok(Self(s))
     }
 }
@@ -330,7 +345,9 @@ impl BinWrite for LenPrefixedWideString {
             for cu in self.0.encode_utf16() {
                 bytes.extend_from_slice(&cu.to_be_bytes());
             }
-            bytes.extend_from_slice(&[0, 0]);
+            if self.has_terminator() {
+                bytes.extend_from_slice(&[0, 0]);
+            }
             writer.write_all(&bytes)?;
         }
         Ok(())
@@ -468,7 +485,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    #[br(count = header.total_size.saturating_sub(comment.byte_len().saturating_add(68)) as usize)]
     pub trailing: Vec<u8>,
 }
 
-- 
2.43.0


From a8ef514ab2d406488cc27f21edb55b7398f222df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 21/43] fix: give simplified Chinese its display name

---
 src/setting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 335f274..49d78ab 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -854,8 +854,8 @@ pub enum Language {
     #[display("한국어")]
     Korean,
     /// Named "简体中文" in the Rekordbox preferences.
-    ChineseSimplified,
     #[display("简体中文")]
+    ChineseSimplified,
     /// Named "繁體中文" in the Rekordbox preferences.
     #[display("繁體中文")]
     ChineseTraditional,
-- 
2.43.0


From 5bb409b034bf5270207b5a7d4621c53f39c2978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 22/43] fix: report an error when writing settings with texts
 that do not fit

Calculating the checksum panicked.
---
 src/setting.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/setting.rs b/src/setting.rs
index 49d78ab..5d151da 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -22,7 +22,7 @@
 //! The `SettingData` structs implement the `Default` trait and allows you to create objects that
 //! use the same default values as found in Rekordbox 6.6.1.
 
-use binrw::{binrw, io::Cursor, BinWrite, Endian, NullString};
+use binrw::{binrw, io::Cursor, BinResult, BinWrite, Endian, NullString};
 use parse_display::Display;
 
 #[binrw]
@@ -69,7 +69,7 @@ pub struct Setting {
     /// See <https://reveng.sourceforge.io/crc-catalogue/all.htm#crc.cat.crc-16-xmodem> for
     /// details.
     #[br(temp)]
-    #[bw(calc = if no_checksum { 0 } else { self.calculate_checksum() })]
+    #[bw(try_calc = if no_checksum { Ok(0) } else { self.calculate_checksum() })]
     _checksum: u16,
     /// Unknown field (apparently always `0000`).
     #[br(temp)]
@@ -137,11 +137,10 @@ where
     /// there seems to be no other way to achieve this.
     ///
     /// Upstream issue: https://github.com/jam1garner/binrw/issues/102
-    fn calculate_checksum(&self) -> u16 {
+    fn calculate_checksum(&self) -> BinResult<u16> {
         let mut data = Vec::<u8>::with_capacity(156);
         let mut writer = Cursor::new(&mut data);
-        self.write_options(&mut writer, Endian::Little, (true,))
-            .unwrap();
+        self.write_options(&mut writer, Endian::Little, (true,))?;
         let start = match self.data {
             // In `DJMMYSETTING.DAT`, the checksum is calculated over all previous bytes, including
             // the section lengths and string data.
@@ -152,7 +151,7 @@ where
         };
 
         let end = data.len() - 4;
-        crc16::State::<crc16::XMODEM>::calculate(&data[start..end])
+        Ok(crc16::State::<crc16::XMODEM>::calculate(&data[start..end]))
     }
 }
 
-- 
2.43.0


From 24f52f38688687b57cb23754cf9608119b1cae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 23/43] fix: do not write absent XML attributes as empty ones

An absent number was written as an empty attribute that cannot be parsed again,
an absent text became an empty one.
---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..26c2f43 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -82,57 +82,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -150,19 +163,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -174,6 +191,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -183,18 +201,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
-- 
2.43.0


From fc8d63da6b9e5c3804d48dcf83f89cd97cc969da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 24/43] fix: accept empty collections, folders and playlists in
 XML files

---
 src/xml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 26c2f43..a1044fc 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -387,6 +388,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
                                         #[serde(rename = "NODE")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -406,6 +408,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
                                         #[serde(rename = "TRACK")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -463,6 +466,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From db6a121ace7569d11d60bc9c514721fe085fbf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 25/43] fix: write the type of the root playlist folder to XML
 files

---
 src/xml.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index a1044fc..e0328a2 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -321,13 +321,40 @@ pub struct PositionMark {
 }
 
 /// Playlist collection.
-#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[derive(Debug, PartialEq, Clone, Deserialize)]
 pub struct Playlists {
     /// The root node of all playlists.
     #[serde(rename = "NODE")]
     pub node: PlaylistFolderNode,
 }
 
+impl Serialize for Playlists {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        // The root folder carries a `Type` attribute like any other folder.
+        #[derive(Serialize)]
+        #[serde(tag = "@Type")]
+        enum Root<'a> {
+            #[serde(rename = "0")]
+            Folder(&'a PlaylistFolderNode),
+        }
+
+        #[derive(Serialize)]
+        struct Value<'a> {
+            #[serde(rename = "NODE")]
+            node: Root<'a>,
+        }
+
+        let value = Value {
+            node: Root::Folder(&self.node),
+        };
+
+        value.serialize(serializer)
+    }
+}
+
 /// The type of a playlist node.
 #[derive(Debug, PartialEq, Clone, Serialize)]
 #[serde(tag = "@Type")]
-- 
2.43.0


From 21fa2f1f144ca212036b2e45464121c79633dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 26/43] fix: list playlist tree rows that refer to themselves
 only once

---
 src/device.rs | 20 +++++++++++---------
 src/main.rs   |  8 +++++---
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..61680bd 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -533,33 +533,35 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
         Ok(())
     })?;
 
+    // Every list of children is taken out of the map when it is visited, so that rows referring to
+    // themselves or to each other cannot lead to an endless recursion.
     fn get_child_nodes(
-        playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        playlists: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+    ) -> crate::Result<Vec<PlaylistNode>> {
         playlists
-            .get(&id)
+            .remove(&id)
             .into_iter()
-            .flat_map(|nodes| nodes.iter())
+            .flatten()
             .map(|node| -> crate::Result<PlaylistNode> {
                 let child_node = if node.is_folder() {
                     let folder = PlaylistFolder {
                         id: node.id,
-                        name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
-                            .collect::<crate::Result<Vec<PlaylistNode>>>()?,
+                        name: node.name.into_string()?,
+                        children: get_child_nodes(playlists, node.id)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
                     let playlist = Playlist {
                         id: node.id,
-                        name: node.name.clone().into_string()?,
+                        name: node.name.into_string()?,
                     };
                     PlaylistNode::Playlist(playlist)
                 };
                 Ok(child_node)
             })
+            .collect()
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&mut playlists, PlaylistTreeNodeId(0))
 }
diff --git a/src/main.rs b/src/main.rs
index 818a014..770634d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -147,15 +147,17 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         };
         println!("{} - {}", artist.offsets.name, track.offsets.title)
     }
+    // Every list of children is taken out of the map when it is printed, so that rows referring to
+    // themselves or to each other cannot lead to an endless recursion.
     fn print_children_of(
-        tree: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        tree: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
         level: usize,
     ) {
-        tree.get(&id)
+        tree.remove(&id)
             .iter()
             .flat_map(|nodes| nodes.iter())
             .for_each(|node| {
@@ -177,7 +179,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     }
 
     print_children_of(
-        &playlist_tree,
+        &mut playlist_tree,
         &playlist_entries,
         &artists,
         &tracks,
-- 
2.43.0


From 6898b3fd8770f1b18b28b2dd441e90ee2280c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 27/43] fix: keep exported playlists inside the output
 directory

---
 src/main.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 770634d..0b6bd4d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -218,16 +218,25 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    // Names come from the database and must not lead out of the directory they are used in.
+    fn to_file_name(name: &str) -> String {
+        let is_invalid = |c: char| std::path::is_separator(c) || c == '\0';
+        let name = name.replace(is_invalid, "_");
+        match Path::new(&name).components().next() {
+            Some(std::path::Component::Normal(_)) => name,
+            _ => format!("_{name}"),
+        }
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
         visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
-            PlaylistNode::Folder(folder) => folder
-                .children
-                .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
+            PlaylistNode::Folder(folder) => folder.children.into_iter().try_for_each(|child| {
+                walk_tree(child, &path.join(to_file_name(&folder.name)), visit)
+            }),
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
@@ -235,7 +244,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
+            let playlist_path = path.join(to_file_name(&format!("{}.m3u", playlist.name)));
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From afa6d69c7c3b64ca14f34986c933bfaa92012961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 28/43] fix: export every one of several playlists with the
 same name

---
 src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0b6bd4d..1535ce6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -193,7 +193,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::device::{Playlist, PlaylistNode};
     use rekordcrate::DeviceExportLoader;
-    use std::collections::HashMap;
+    use std::collections::{HashMap, HashSet};
     use std::io::Write;
 
     let loader = DeviceExportLoader::new(path.into());
@@ -231,7 +231,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
-        visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
+        visit: &mut impl FnMut(Playlist, &Path) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
             PlaylistNode::Folder(folder) => folder.children.into_iter().try_for_each(|child| {
@@ -241,10 +241,18 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         }
     }
 
+    // Playlists that share their name and folder are numbered.
+    let mut written = HashSet::new();
     playlists.into_iter().try_for_each(|node| {
-        walk_tree(node, output_dir, &|playlist, path| {
+        walk_tree(node, output_dir, &mut |playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(to_file_name(&format!("{}.m3u", playlist.name)));
+            let mut playlist_path = path.join(to_file_name(&format!("{}.m3u", playlist.name)));
+            let mut number = 1;
+            while !written.insert(playlist_path.clone()) {
+                number += 1;
+                playlist_path =
+                    path.join(to_file_name(&format!("{} ({number}).m3u", playlist.name)));
+            }
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From a413634c9d57638be64a6729424d941c6505dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 29/43] fix: do not allocate memory for more bytes than an
 analysis file has

---
 src/anlz.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index acc9f91..1d31a6b 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -34,6 +34,22 @@ use binrw::{
 };
 use modular_bitfield::prelude::*;
 
+/// Reads exactly `len` bytes.
+///
+/// Does not allocate `len` bytes up front because the value may exceed the size of the input.
+#[binrw::parser(reader)]
+fn read_bytes(len: u32) -> BinResult<Vec<u8>> {
+    let mut bytes = vec![];
+    reader
+        .by_ref()
+        .take(u64::from(len))
+        .read_to_end(&mut bytes)?;
+    if bytes.len() as u64 != u64::from(len) {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 /// The kind of section.
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -305,15 +321,7 @@ impl BinRead for LenPrefixedWideString {
         if len % 2 != 0 {
             return Err(invalid(pos, "length of UTF-16 string is odd"));
         }
-        // Do not allocate `len` bytes up front, the value may exceed the size of the input.
-        let mut bytes = vec![];
-        reader
-            .by_ref()
-            .take(u64::from(len))
-            .read_to_end(&mut bytes)?;
-        if bytes.len() as u64 != u64::from(len) {
-            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
-        }
+        let bytes = read_bytes(reader, endian, (len,))?;
         let mut code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
@@ -485,7 +493,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(comment.byte_len().saturating_add(68)) as usize)]
+    #[br(parse_with = read_bytes, args(header.total_size.saturating_sub(comment.byte_len().saturating_add(68))))]
     pub trailing: Vec<u8>,
 }
 
@@ -864,7 +872,7 @@ pub struct VBR {
     /// Unknown field.
     unknown1: u32,
     /// Unknown data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     unknown2: Vec<u8>,
 }
 
@@ -1154,10 +1162,10 @@ impl SongStructureData {
 #[br(import(header: Header))]
 pub struct Unknown {
     /// Unknown header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     header_data: Vec<u8>,
     /// Unknown content data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     content_data: Vec<u8>,
 }
 
@@ -1184,7 +1192,7 @@ pub struct ANLZ {
     #[br(assert(header.kind == ContentKind::File))]
     pub header: Header,
     /// The header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     pub header_data: Vec<u8>,
     /// The content sections.
     #[br(parse_with = Self::parse_sections, args(header.content_size()))]
-- 
2.43.0


From afda061a453177dc64e8fba6058898adcb2f69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 30/43] fix: report an error for XML playlist nodes that are
 nested too deeply

---
 src/xml.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index e0328a2..e7b4e00 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -18,6 +18,7 @@
 type NaiveDate = String; //Replace with "use chrono::naive::NaiveDate;"
 use serde::{de::Error, ser::Serializer, Deserialize, Serialize};
 use std::borrow::Cow;
+use std::cell::Cell;
 
 /// The XML root element of a rekordbox XML file.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
@@ -368,6 +369,36 @@ pub enum PlaylistGenericNode {
     Playlist(PlaylistPlaylistNode),
 }
 
+/// Maximum number of playlist nodes that can be nested in each other.
+///
+/// Every level is deserialized recursively, so that a file with any number of levels would
+/// overflow the stack.
+const MAX_NODE_DEPTH: usize = 128;
+
+thread_local! {
+    static NODE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Counts the playlist nodes that are being deserialized by the current thread.
+struct NodeDepthGuard;
+
+impl NodeDepthGuard {
+    fn enter<E: Error>() -> Result<Self, E> {
+        let depth = NODE_DEPTH.get();
+        if depth >= MAX_NODE_DEPTH {
+            return Err(E::custom("playlist nodes are nested too deeply"));
+        }
+        NODE_DEPTH.set(depth + 1);
+        Ok(Self)
+    }
+}
+
+impl Drop for NodeDepthGuard {
+    fn drop(&mut self) {
+        NODE_DEPTH.set(NODE_DEPTH.get() - 1);
+    }
+}
+
 impl<'de> Deserialize<'de> for PlaylistGenericNode {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
@@ -478,6 +509,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
             }
         }
 
+        let _guard = NodeDepthGuard::enter()?;
         deserializer.deserialize_map(PlaylistGenericNodeVisitor)
     }
 }
-- 
2.43.0


From 3e37c1678fa7e372ee1e77a885d1991d26094cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 31/43] fix: stop writing the items of a row after the first
 error

---
 src/util.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2cf4f5c..e6c875c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -216,16 +216,20 @@ pub(crate) trait ArrayPolyfills<T, const N: usize> {
 }
 
 impl<T, const N: usize> ArrayPolyfills<T, N> for [T; N] {
-    fn try_map_polyfill<U, E>(self, f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
-        let results = self.map(f);
-        let has_error = results.iter().any(|r| r.is_err());
-        if has_error {
-            return Err(results.into_iter().find_map(|r| r.err()).unwrap());
+    fn try_map_polyfill<U, E>(self, mut f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
+        // Unlike `map`, stop calling `f` after the first error.
+        let mut error = None;
+        let results = self.map(|value| match error {
+            None => f(value).map_err(|e| error = Some(e)).ok(),
+            Some(_) => None,
+        });
+        match error {
+            Some(error) => Err(error),
+            None => Ok(results.map(|r| match r {
+                Some(v) => v,
+                None => unreachable!(),
+            })),
         }
-        Ok(results.map(|r| match r {
-            Ok(v) => v,
-            Err(_) => unreachable!(),
-        }))
     }
 
     fn zip_polyfill<U>(self, other: [U; N]) -> [(T, U); N] {
-- 
2.43.0


From da65433911a3d4b490cf617ac912888ec5db5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 32/43] fix: report transient I/O errors when reading pages and
 analysis sections

---
 src/anlz.rs   |  7 +++++--
 src/pdb/io.rs | 10 ++++-----
 src/util.rs   | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 1d31a6b..64966d7 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -26,7 +26,10 @@
 
 #![allow(clippy::must_use_candidate)]
 
-use crate::{util::ColorIndex, xor::XorStream};
+use crate::{
+    util::{read_reliably, ColorIndex},
+    xor::XorStream,
+};
 use binrw::{
     binrw,
     io::{Read, Seek, Write},
@@ -1210,7 +1213,7 @@ impl ANLZ {
 
         let mut sections: Vec<Section> = vec![];
         while reader.stream_position()? < final_position {
-            let section = Section::read_options(reader, endian, ())?;
+            let section = read_reliably(reader, endian, ())?;
             sections.push(section);
         }
 
diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 49947fc..454c9bc 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -19,8 +19,8 @@
 //! - <https://github.com/flesniak/python-prodj-link/tree/master/prodj/pdblib>
 
 use super::*;
-use crate::util::{RekordcrateError, RekordcrateResult, TableIndex};
-use binrw::{binrw, io::SeekFrom, BinRead, BinResult, BinWrite, Endian};
+use crate::util::{read_reliably, RekordcrateError, RekordcrateResult, TableIndex};
+use binrw::{binrw, io::SeekFrom, BinResult, BinWrite, Endian};
 use fallible_iterator::{FallibleIterator, IteratorExt};
 use std::io::{Read, Seek, Write};
 
@@ -94,7 +94,7 @@ fn read_page<IO: Read + Seek>(
     let endian = Endian::Little;
     let page_offset = SeekFrom::Start(page_index.offset(page_size));
     io.seek(page_offset).map_err(binrw::Error::Io)?;
-    let page = Page::read_options(io, endian, (page_size, db_type))?;
+    let page = read_reliably(io, endian, (page_size, db_type))?;
     Ok(page)
 }
 
@@ -111,7 +111,7 @@ impl<R: Read + Seek> Database<R> {
     /// Still allows modifying data in memory.
     pub fn open_non_persistent(mut io: R, db_type: DatabaseType) -> RekordcrateResult<Self> {
         let endian = Endian::Little;
-        let content = LazyDatabase::read_options(&mut io, endian, (db_type,))?;
+        let content = read_reliably(&mut io, endian, (db_type,))?;
         Ok(Self {
             io,
             db_type,
@@ -224,7 +224,7 @@ impl<RW: Read + Write + Seek> Database<RW> {
     /// Opens a PDB database for reading and writing.
     pub fn open(mut io: RW, db_type: DatabaseType) -> RekordcrateResult<Self> {
         let endian = Endian::Little;
-        let content = LazyDatabase::read_options(&mut io, endian, (db_type,))?;
+        let content = read_reliably(&mut io, endian, (db_type,))?;
         Ok(Self {
             io,
             db_type,
diff --git a/src/util.rs b/src/util.rs
index e6c875c..c5ec768 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -8,7 +8,7 @@
 
 //! Common types used in multiple modules.
 
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use crate::pdb::string::StringError;
 use crate::pdb::{PageIndex, PageType};
@@ -142,6 +142,61 @@ pub enum FileType {
     Other(u16),
 }
 
+/// Reader that keeps failing once the underlying reader has failed.
+///
+/// Parsers of enums try the next variant after an error, so that a transient I/O error could go
+/// unnoticed and lead to a value of the wrong variant.
+#[derive(Debug)]
+struct FailingReader<'r, R> {
+    inner: &'r mut R,
+    error: Option<io::Error>,
+}
+
+impl<R> FailingReader<'_, R> {
+    fn check<T>(&mut self, op: impl FnOnce(&mut R) -> io::Result<T>) -> io::Result<T> {
+        if let Some(error) = &self.error {
+            return Err(error.kind().into());
+        }
+        op(self.inner).map_err(|error| match error.kind() {
+            // Neither interruptions nor invalid positions are failures of the underlying reader.
+            io::ErrorKind::Interrupted | io::ErrorKind::InvalidInput => error,
+            kind => {
+                self.error = Some(error);
+                kind.into()
+            }
+        })
+    }
+}
+
+impl<R: Read> Read for FailingReader<'_, R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.check(|reader| reader.read(buf))
+    }
+}
+
+impl<R: Seek> Seek for FailingReader<'_, R> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.check(|reader| reader.seek(pos))
+    }
+}
+
+/// Reads a value, ensuring that all errors of the reader are returned.
+pub(crate) fn read_reliably<R: Read + Seek, T: BinRead>(
+    reader: &mut R,
+    endian: Endian,
+    args: T::Args<'_>,
+) -> BinResult<T> {
+    let mut reader = FailingReader {
+        inner: reader,
+        error: None,
+    };
+    let result = T::read_options(&mut reader, endian, args);
+    match reader.error {
+        Some(error) => Err(binrw::Error::Io(error)),
+        None => result,
+    }
+}
+
 /// Parses a sequence of values with `BinRead` from the offsets provided by the iterator.
 pub(crate) fn parse_at_offsets<Offset, Value, T, Args, It, Reader>(
     it: It,
-- 
2.43.0


From 372cf12d5eb818f0e64cb6406e9d02ebb950d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 33/43] fix: report an error for malformed XML files instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1535ce6..f11f0c8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -351,7 +351,7 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader).map_err(std::io::Error::other)?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From 6b085446ac9da431ec1402aa67e626c1e2e249af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 34/43] fix: keep exported track paths that start with several
 slashes on the device

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f11f0c8..e58e706 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -263,7 +263,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
                         "{}",
                         export_path
                             .canonicalize()?
-                            .join(track.strip_prefix('/').unwrap_or(track))
+                            .join(track.trim_start_matches('/'))
                             .display(),
                     )?;
                 }
-- 
2.43.0


From 9c509ca9f802904721e8b72e62c7205d08bfc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 35/43] fix: export playlists next to a folder that is called
 like their file

---
 src/main.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e58e706..254e168 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -241,14 +241,25 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         }
     }
 
+    fn create_folders(nodes: &[PlaylistNode], path: &Path) -> rekordcrate::Result<()> {
+        nodes.iter().try_for_each(|node| match node {
+            PlaylistNode::Folder(folder) => {
+                create_folders(&folder.children, &path.join(to_file_name(&folder.name)))
+            }
+            PlaylistNode::Playlist(_) => Ok(std::fs::create_dir_all(path)?),
+        })
+    }
+
+    // All folders are created first, so that no playlist takes the name of a folder.
+    create_folders(&playlists, output_dir)?;
+
     // Playlists that share their name and folder are numbered.
     let mut written = HashSet::new();
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &mut |playlist, path| {
-            std::fs::create_dir_all(path)?;
             let mut playlist_path = path.join(to_file_name(&format!("{}.m3u", playlist.name)));
             let mut number = 1;
-            while !written.insert(playlist_path.clone()) {
+            while playlist_path.is_dir() || !written.insert(playlist_path.clone()) {
                 number += 1;
                 playlist_path =
                     path.join(to_file_name(&format!("{} ({number}).m3u", playlist.name)));
-- 
2.43.0


From 1688008aa7694f6fdecd97adb686acf9a42fa21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 36/43] fix: refuse to write index pages whose entry count does
 not match their entries

---
 src/pdb/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index be7e99a..ac143fa 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -368,6 +368,7 @@ impl IndexPageHeader {
 #[br(little)]
 #[bw(little, import { page_size: u32 })]
 #[bw(assert(self.fits(page_size), "index entries do not fit into the page"))]
+#[bw(assert(usize::from(self.header.num_entries) == self.entries.len(), "num_entries does not match the number of index entries"))]
 pub struct IndexPageContent {
     /// The header of the index page.
     pub header: IndexPageHeader,
-- 
2.43.0


From c59c84e8faf5a0eaf1f234e7260e8aea2bf1a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 37/43] fix: dump-pdb and dump-setting fail when the type of
 the file is unknown

They printed a message and reported success.
---
 src/main.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 254e168..6218051 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -368,7 +368,7 @@ fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     Ok(())
 }
 
-fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
+fn guess_db_type(path: &Path, db_type: Option<&str>) -> rekordcrate::Result<DatabaseType> {
     let db_type_cli = db_type.map(|str| match str {
         "plain" => DatabaseType::Plain,
         "ext" => DatabaseType::Ext,
@@ -376,8 +376,8 @@ fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
     });
     let file_name = match path.file_name() {
         None => {
-            eprintln!("{} not a file!", path.display());
-            return None; // TODO(Swiftb0y): turn this into a proper error
+            let message = format!("{} not a file!", path.display());
+            return Err(std::io::Error::other(message).into());
         }
         Some(file_name) => file_name,
     };
@@ -390,8 +390,8 @@ fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
     };
     let db_type = match (db_type_cli, db_type_file) {
         (None, None) => {
-            eprintln!("no DB_TYPE supplied nor could it be guessed!");
-            return None; // TODO(Swiftb0y): turn this into a proper error
+            let message = "no DB_TYPE supplied nor could it be guessed!";
+            return Err(std::io::Error::other(message).into());
         }
         (None, Some(guess)) | (Some(guess), None) => guess,
         (Some(db_type_cli), Some(db_type_file)) if db_type_cli == db_type_file => db_type_cli,
@@ -400,10 +400,10 @@ fn guess_db_type(path: &Path, db_type: Option<&str>) -> Option<DatabaseType> {
             db_type_cli
         }
     };
-    Some(db_type)
+    Ok(db_type)
 }
 
-fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> Option<SettingType> {
+fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> rekordcrate::Result<SettingType> {
     let setting_type_cli = setting_type.map(|str| match str {
         "devsetting" => SettingType::DevSetting,
         "djmmysetting" => SettingType::DJMMySetting,
@@ -415,16 +415,16 @@ fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> Option<Setting
     });
     let file_name = match path.file_name() {
         None => {
-            eprintln!("{} not a file!", path.display());
-            return None; // TODO: turn into proper error
+            let message = format!("{} not a file!", path.display());
+            return Err(std::io::Error::other(message).into());
         }
         Some(file_name) => file_name,
     };
     let setting_type_file = SettingType::from_filename(file_name);
     let setting_type = match (setting_type_cli, setting_type_file) {
         (None, None) => {
-            eprintln!("no SETTING_TYPE supplied nor could it be guessed!");
-            return None; // TODO: turn into proper error
+            let message = "no SETTING_TYPE supplied nor could it be guessed!";
+            return Err(std::io::Error::other(message).into());
         }
         (None, Some(guess)) | (Some(guess), None) => guess,
         (Some(setting_type_cli), Some(setting_type_file))
@@ -437,7 +437,7 @@ fn guess_setting_type(path: &Path, setting_type: Option<&str>) -> Option<Setting
             setting_type_cli
         }
     };
-    Some(setting_type)
+    Ok(setting_type)
 }
 
 fn main() -> rekordcrate::Result<()> {
@@ -452,18 +452,12 @@ fn main() -> rekordcrate::Result<()> {
             db_type,
             parse_unknown_tables,
         } => {
-            let db_type = match guess_db_type(path, db_type.as_deref()) {
-                Some(db_type) => db_type,
-                None => return Ok(()), // TODO(Swiftb0y): turn into proper error;
-            };
+            let db_type = guess_db_type(path, db_type.as_deref())?;
             dump_pdb(path, db_type, *parse_unknown_tables)
         }
         Commands::DumpANLZ { path } => dump_anlz(path),
         Commands::DumpSetting { path, setting_type } => {
-            let setting_type = match guess_setting_type(path, setting_type.as_deref()) {
-                Some(setting_type) => setting_type,
-                None => return Ok(()), // TODO: turn into proper error
-            };
+            let setting_type = guess_setting_type(path, setting_type.as_deref())?;
             dump_setting(path, setting_type)
         }
         Commands::DumpXML { path } => dump_xml(path),
-- 
2.43.0


From 58ef19d8ad24f8f3850a525d968caa295be46366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 38/43] fix: Keep paths that are not Unicode in exported
 playlists

Bytes of the device's path that are not UTF-8 were replaced, so that the playlists named tracks
that do not exist.
---
 src/main.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6218051..4482a90 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -269,14 +269,12 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
             let mut file = File::create(playlist_path)?;
             if let Some(entries) = playlist_entries.get(&playlist.id) {
                 for track in entries.values().filter_map(|track_id| tracks.get(track_id)) {
-                    writeln!(
-                        &mut file,
-                        "{}",
-                        export_path
-                            .canonicalize()?
-                            .join(track.trim_start_matches('/'))
-                            .display(),
-                    )?;
+                    // Not every path is valid Unicode.
+                    let track_path = export_path
+                        .canonicalize()?
+                        .join(track.trim_start_matches('/'));
+                    file.write_all(track_path.as_os_str().as_encoded_bytes())?;
+                    writeln!(&mut file)?;
                 }
             }
             Ok(())
-- 
2.43.0


From 4d5bf1d58583eec5075b22ec4dbf2cf18aff729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 39/43] fix: Do not write a header that contradicts its tables

---
 src/pdb/io.rs  | 2 +-
 src/pdb/mod.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 454c9bc..d54db74 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -32,7 +32,7 @@ use std::io::{Read, Seek, Write};
 struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
-    #[br(assert(header.page_size as usize >= header.binary_size(), "page size {} is too small", header.page_size))]
+    #[brw(assert(header.page_size as usize >= header.binary_size(), "page size {} is too small", header.page_size))]
     header: Header,
     /// The pages of the database, initially not loaded.
     #[br(parse_with = unloaded_pages, args(&header))]
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index ac143fa..99e6681 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -202,6 +202,7 @@ pub struct Table {
 #[derive(Debug, PartialEq, Eq, Clone)]
 #[brw(little)]
 #[brw(import(db_type: DatabaseType))]
+#[bw(assert(*num_tables as usize == tables.len(), "header says {} tables but has {}", num_tables, tables.len()))]
 pub struct Header {
     // Unknown purpose, perhaps an unoriginal signature, seems to always have the value 0.
     #[brw(magic = 0u32)]
-- 
2.43.0


From d8b8eca91d82762d5abe717dd77de9148b502a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 40/43] fix: Do not write a page whose content its header does
 not describe

---
 src/pdb/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 99e6681..12517ca 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -33,7 +33,7 @@ mod test_roundtrip;
 #[cfg(test)]
 mod test_modification;
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::fmt;
 
 use crate::pdb::ext::{ExtPageType, ExtRow};
@@ -461,6 +461,25 @@ pub enum PageContent {
 }
 
 impl PageContent {
+    /// Whether the header of the page describes this content, so that it can be read back.
+    fn matches(&self, header: &PageHeader) -> bool {
+        match self {
+            PageContent::Data(data) => {
+                let row_counts = &header.packed_row_counts;
+                let present_rows: BTreeSet<u16> = data
+                    .row_groups
+                    .iter()
+                    .flat_map(RowGroup::present_rows_offsets)
+                    .collect();
+                !header.page_flags.is_index_page()
+                    && data.row_groups.len() == row_counts.num_row_groups().into()
+                    && data.rows.len() == row_counts.num_rows_valid().into()
+                    && data.rows.keys().eq(&present_rows)
+            }
+            PageContent::Index(_) => header.page_flags.is_index_page(),
+        }
+    }
+
     /// Returns the data content of the page if it is a data page.
     #[must_use]
     pub fn into_data(self) -> Option<DataPageContent> {
@@ -575,6 +594,7 @@ impl PageHeader {
 #[br(import(page_size: u32, db_type: DatabaseType))]
 #[br(pre_assert(page_size >= Self::MIN_SIZE, "page size {} is too small", page_size))]
 #[bw(import(page_size: u32))]
+#[bw(assert(content.matches(header), "page {:?} does not match its header", header.page_index))]
 pub struct Page {
     /// The page header.
     #[br(args(db_type))]
-- 
2.43.0


From dcbdeb741cbe5dad89422b69b07914ebb86fcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 41/43] fix: Refuse playlist folders that are nested too deeply

Listing and exporting recurse into every folder, so that a small file with a chain of some thousand
folders overflowed the stack.
---
 src/device.rs | 16 ++++++++++++++--
 src/main.rs   | 19 ++++++++++++-------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 61680bd..498e14e 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -521,6 +521,12 @@ pub struct Playlist {
     pub name: String,
 }
 
+/// Maximum number of levels of the playlist tree.
+///
+/// The tree is traversed recursively, so that a database with any number of levels would overflow
+/// the stack.
+const MAX_PLAYLIST_DEPTH: usize = 128;
+
 /// Get playlist tree.
 pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<PlaylistNode>> {
     let mut playlists: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
@@ -538,17 +544,23 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
     fn get_child_nodes(
         playlists: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         id: PlaylistTreeNodeId,
+        level: usize,
     ) -> crate::Result<Vec<PlaylistNode>> {
         playlists
             .remove(&id)
             .into_iter()
             .flatten()
             .map(|node| -> crate::Result<PlaylistNode> {
+                if level >= MAX_PLAYLIST_DEPTH {
+                    return Err(crate::Error::IntegrityError(
+                        "playlist folders are nested too deeply",
+                    ));
+                }
                 let child_node = if node.is_folder() {
                     let folder = PlaylistFolder {
                         id: node.id,
                         name: node.name.into_string()?,
-                        children: get_child_nodes(playlists, node.id)?,
+                        children: get_child_nodes(playlists, node.id, level + 1)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
@@ -563,5 +575,5 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
             .collect()
     }
 
-    get_child_nodes(&mut playlists, PlaylistTreeNodeId(0))
+    get_child_nodes(&mut playlists, PlaylistTreeNodeId(0), 0)
 }
diff --git a/src/main.rs b/src/main.rs
index 4482a90..a410ffa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -156,11 +156,18 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
         level: usize,
-    ) {
+    ) -> rekordcrate::Result<()> {
+        // Any number of levels would overflow the stack.
+        const MAX_LEVELS: usize = 128;
         tree.remove(&id)
             .iter()
             .flat_map(|nodes| nodes.iter())
-            .for_each(|node| {
+            .try_for_each(|node| {
+                if level >= MAX_LEVELS {
+                    return Err(rekordcrate::Error::IntegrityError(
+                        "playlist folders are nested too deeply",
+                    ));
+                }
                 let indentation = "    ".repeat(level);
                 println!(
                     "{}{} {}",
@@ -174,8 +181,8 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
                         print_track(track_id, artists, tracks);
                     }
                 }
-                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1);
-            });
+                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1)
+            })
     }
 
     print_children_of(
@@ -185,9 +192,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         &tracks,
         PlaylistTreeNodeId(0),
         0,
-    );
-
-    Ok(())
+    )
 }
 
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
-- 
2.43.0


From 8c6b993bead534870c1dfd3da8d82ec1b9eabdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 42/43] fix: Count the gaps between strings in the heap size of
 a row

The size of a row with given offsets was the sum of the sizes of its parts, so that a row whose
strings are not stored back to back (as UTF-16 strings, which are aligned) was given too little
space and overlapped the next one.
---
 src/pdb/ext.rs          |  2 +-
 src/pdb/mod.rs          |  6 +++---
 src/pdb/offset_array.rs | 29 +++++++++++++++++++++++------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/pdb/ext.rs b/src/pdb/ext.rs
index 14490ff..7761504 100644
--- a/src/pdb/ext.rs
+++ b/src/pdb/ext.rs
@@ -127,7 +127,7 @@ impl PageHeapObject for TagOrCategory {
             self.id.heap_bytes_required(()),
             self.raw_is_category.heap_bytes_required(()),
             self.offsets
-                .heap_bytes_required(self.subtype.get_offset_size()),
+                .heap_bytes_required((0x1C, self.subtype.get_offset_size())),
         ]
         .iter()
         .sum()
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 12517ca..6c07ec3 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -1104,7 +1104,7 @@ impl PageHeapObject for Album {
             self.id.heap_bytes_required(()),
             self.unknown3.heap_bytes_required(()),
             self.offsets
-                .heap_bytes_required(self.subtype.get_offset_size()),
+                .heap_bytes_required((20, self.subtype.get_offset_size())),
         ]
         .iter()
         .sum()
@@ -1153,7 +1153,7 @@ impl PageHeapObject for Artist {
             self.index_shift.heap_bytes_required(()),
             self.id.heap_bytes_required(()),
             self.offsets
-                .heap_bytes_required(self.subtype.get_offset_size()),
+                .heap_bytes_required((8, self.subtype.get_offset_size())),
         ]
         .iter()
         .sum()
@@ -1907,7 +1907,7 @@ impl PageHeapObject for Track {
             self.rating.heap_bytes_required(()),
             self.file_type.heap_bytes_required(()),
             self.offsets
-                .heap_bytes_required(self.subtype.get_offset_size()),
+                .heap_bytes_required((0x5C, self.subtype.get_offset_size())),
         ]
         .iter()
         .sum()
diff --git a/src/pdb/offset_array.rs b/src/pdb/offset_array.rs
index d622416..4ec1857 100644
--- a/src/pdb/offset_array.rs
+++ b/src/pdb/offset_array.rs
@@ -244,14 +244,24 @@ where
     T: OffsetArrayItems<N, Item = U> + 'static,
     U: for<'a> PageHeapObject<Args<'a> = ()> + OffsetArrayItemAlignment,
 {
-    type Args<'a> = OffsetSize;
-    fn heap_bytes_required(&self, offset_size: OffsetSize) -> u16 {
+    type Args<'a> = (u16, OffsetSize);
+    fn heap_bytes_required(&self, (offset, offset_size): Self::Args<'_>) -> u16 {
         let mut total = ((N + 1) * offset_size.bytes()) as u16;
-        for item in self.inner.as_items() {
-            if matches!(self.offsets, MaybeCalculated::Calculated) {
-                total = Self::aligned_offset(u64::from(total), item.required_alignment()) as u16;
+        match &self.offsets {
+            MaybeCalculated::Calculated => {
+                for item in self.inner.as_items() {
+                    total =
+                        Self::aligned_offset(u64::from(total), item.required_alignment()) as u16;
+                    total += item.heap_bytes_required(());
+                }
+            }
+            // The items may be stored in any order and with gaps, e.g. for alignment.
+            MaybeCalculated::Provided(offsets) => {
+                for (item, item_offset) in self.inner.as_items().zip_polyfill(offsets.as_u16()) {
+                    let end = item_offset.saturating_add(item.heap_bytes_required(()));
+                    total = total.max(end.saturating_sub(offset));
+                }
             }
-            total += item.heap_bytes_required(());
         }
         total
     }
@@ -314,6 +324,13 @@ impl<const N: usize> OffsetArray<N> {
         )
     }
 
+    fn as_u16(&self) -> [u16; N] {
+        match self {
+            OffsetArray::U8(offsets) => offsets.map(u16::from),
+            OffsetArray::U16(offsets) => *offsets,
+        }
+    }
+
     fn as_seeks(&self) -> [SeekFrom; N] {
         match self {
             OffsetArray::U8(offsets) => offsets.map(|offset| SeekFrom::Current(offset.into())),
-- 
2.43.0


From 52cfa5314f093d44fe71dacf98edaaf1708bdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 43/43] Verification access to the heap size of a row

Compiled only with --cfg rekordcrate_verif.
---
 src/pdb/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 6c07ec3..6867e9d 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -2142,6 +2142,19 @@ impl Row {
     }
 }
 
+/// Access for external verification, see the `rekordcrate_verif` configuration flag.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(rekordcrate_verif)]
+    impl super::Row {
+        /// Number of bytes that the row needs on the heap of a page.
+        #[must_use]
+        pub fn verif_heap_bytes_required(&self) -> u16 {
+            super::PageHeapObject::heap_bytes_required(self, ())
+        }
+    }
+}
+
 impl PageHeapObject for Row {
     type Args<'a> = ();
     fn heap_bytes_required(&self, _: ()) -> u16 {
-- 
2.43.0

