From 0d0bd1b50924a6176499d71490a99a95dc0f2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 01/20] fix: invalidate the cache in erase_all

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..27ba626 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,9 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Nothing we know about the flash holds after this, also not when the erase only partially succeeds
+        self.cache.invalidate_cache_state();
+
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From 94fe7db18b6c7b5d210af5057155ed1f9c185827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:42 +0000
Subject: [PATCH 02/20] fix: repair an interrupted map migration before
 removing items

The removal only reached the original items and not all of the half-done
copies when it was interrupted, so that a key that still read its value was
lost later when the repair redid the migration.
---
 src/map.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..b93fd4c 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -644,7 +644,24 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .find_first_page(0, PageState::PartialOpen)
             .await?
         {
-            Some(last_used_page) => last_used_page,
+            Some(last_used_page) => {
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(last_used_page))
+                    .await?
+                    .is_open()
+                {
+                    // The buffer page is not open, so a migration to the last used page was interrupted.
+                    // The items in it can still be present twice and the repair that is to come will redo the migration
+                    // based on the original items only. So do that repair before erasing any of them.
+                    return Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    });
+                }
+
+                last_used_page
+            }
             None => {
                 // Oh dear, there's no active partial open page. Seems like some operation was cancelled or didn't make it through.
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
-- 
2.43.0


From 7a79ba533b225d200f2a5443d5d0d621a8a94558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 03/20] fix: don't trust a dirty cache when removing a map item

---
 src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index b93fd4c..3c7ffc6 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -630,6 +630,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
-- 
2.43.0


From 1cddf8812fb2eaa0a44c9d272abc3511fb8b0ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 04/20] fix: don't trust a dirty cache when iterating over the
 map

---
 src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 3c7ffc6..9050ec7 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -806,6 +806,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-- 
2.43.0


From 33814d684258f10550846ddf16c7dce2244fa61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 05/20] fix: report read errors during the general repair

They were dropped, so that the retried operation reported corruption instead.
---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 27ba626..a0e8987 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,11 +81,10 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         // Loop through the pages and get their state. If one returns the corrupted error,
         // the page is likely half-erased. Fix for that is to re-erase again to hopefully finish the job.
         for page_index in self.get_pages(0) {
-            if matches!(
-                self.get_page_state(page_index).await,
-                Err(Error::Corrupted { .. })
-            ) {
-                self.open_page(page_index).await?;
+            match self.get_page_state(page_index).await {
+                Ok(_) => {}
+                Err(Error::Corrupted { .. }) => self.open_page(page_index).await?,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 0ca589b9bcad1b984153a2e6a918f557aca1dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 06/20] fix: report read errors while iterating over the map

A page of which the state could not be read was silently skipped.
---
 src/map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 9050ec7..33ec7e3 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1134,7 +1134,9 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
                         );
                         break;
                     }
-                    _ => continue,
+                    // Nothing (anymore) to be found in open and half-erased pages
+                    Ok(PageState::Open) | Err(Error::Corrupted { .. }) => {}
+                    Err(e) => return Err(e),
                 }
             }
         };
-- 
2.43.0


From ac1ace6c283e43b4b4ad872e2901566a060c065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:15 +0000
Subject: [PATCH 07/20] fix: let the map iterator start on a half-erased page
 be repaired

The ? operators skipped the auto repair, so that an interrupted erase made
fetch_all_items return Error::Corrupted.
---
 src/map.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 33ec7e3..9d1cd64 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -812,8 +812,9 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
 
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
-        let first_page = run_with_auto_repair!(
-            function = {
+        let first_page: Result<usize, Error<S::Error>> = run_with_auto_repair!(
+            // An async block is used so that the `?` operators don't skip the repair
+            function = async {
                 match self
                     .inner
                     .find_first_page(0, PageState::PartialOpen)
@@ -855,9 +856,11 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                         }
                     }
                 }
-            },
+            }
+            .await,
             repair = self.try_repair(data_buffer).await?
-        )?;
+        );
+        let first_page = first_page?;
 
         let start_address =
             calculate_page_address::<S>(self.flash_range(), first_page) + S::WORD_SIZE as u32;
-- 
2.43.0


From 4e4aa10833723421fa72376826761c5dccf063a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 08/20] fix: don't iterate over the leftovers of a half-erased
 page

The page the map iterator starts on is normally empty, but items are still in
it when its erase was interrupted early. These could be removed since.
---
 src/map.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 9d1cd64..84652b3 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -862,10 +862,16 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         );
         let first_page = first_page?;
 
-        let start_address =
-            calculate_page_address::<S>(self.flash_range(), first_page) + S::WORD_SIZE as u32;
         let end_address =
             calculate_page_end_address::<S>(self.flash_range(), first_page) - S::WORD_SIZE as u32;
+        let start_address = match self.inner.get_page_state_cached(first_page).await {
+            Ok(PageState::Closed | PageState::PartialOpen) => {
+                calculate_page_address::<S>(self.flash_range(), first_page) + S::WORD_SIZE as u32
+            }
+            // Whatever there might be in the page is left over from an interrupted erase, so skip it
+            Ok(PageState::Open) | Err(Error::Corrupted { .. }) => end_address,
+            Err(e) => return Err(e),
+        };
 
         Ok(MapItemIter {
             storage: self,
-- 
2.43.0


From 39db099e4360af7092df2a7ab46bb4a347706d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:39 +0000
Subject: [PATCH 09/20] fix: never write a new item into the missing bytes of a
 torn header

With byte-sized words the first byte of the next item could complete the
length checksum of a header of which the last byte was missing. The item got
skipped as part of the then valid header's data.
---
 src/item.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..97dfb28 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -634,6 +634,9 @@ impl ItemHeaderIter {
         flash: &mut S,
         callback: impl Fn(&ItemHeader, u32) -> bool,
     ) -> Result<(Option<ItemHeader>, u32), Error<S::Error>> {
+        // The end of the header that was found to be corrupted (so maybe only partially written)
+        let mut corrupted_header_end = 0;
+
         loop {
             match ItemHeader::read_new(flash, self.current_address, self.end_address).await {
                 Ok(Some(header)) => {
@@ -647,9 +650,14 @@ impl ItemHeaderIter {
                     }
                 }
                 Ok(None) => {
-                    return Ok((None, self.current_address));
+                    // The missing bytes of a partially written header must stay erased.
+                    // If they're used for a new item, they could happen to make the header valid.
+                    return Ok((None, self.current_address.max(corrupted_header_end)));
                 }
                 Err(Error::Corrupted { .. }) => {
+                    if corrupted_header_end <= self.current_address {
+                        corrupted_header_end = ItemHeader::data_address::<S>(self.current_address);
+                    }
                     self.current_address += S::WORD_SIZE as u32;
                 }
                 Err(e) => return Err(e),
-- 
2.43.0


From dc328aac0ea879cdd2db0a7cb80b807039f6270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 10/20] fix: reuse the page of a single-page queue once all
 items are popped

---
 src/queue/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..b43c94a 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -230,10 +230,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         calculate_page_address::<S>(self.flash_range(), next_page)
                             + S::WORD_SIZE as u32;
 
+                    // Note: If there's only one page, it's still partial-open. But since it has no space left
+                    // only its items determine whether it's empty
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
-- 
2.43.0


From a008bbef97697223380172c01a05c95c271d1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 11/20] fix: make find_max_fit account for the item header, the
 max length and single-page queues

---
 src/queue/mod.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index b43c94a..2c8d72c 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -355,20 +355,32 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         let current_page = self.find_youngest_page().await?;
 
+        // An item on an empty page also needs space for its header and it can't be bigger than the max length
+        let empty_page_fit =
+            ItemHeader::available_data_bytes::<S>(calculate_page_size::<S>() as u32)
+                .map(|available| available.min(u32::from(u16::MAX)));
+
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
-        match self.inner.get_page_state_cached(next_page).await? {
-            state @ PageState::Closed => {
-                if self.inner.is_page_empty(next_page, Some(state)).await? {
+        let next_page_state = self.inner.get_page_state_cached(next_page).await?;
+        let single_page = next_page == current_page;
+
+        match (next_page_state, single_page) {
+            (PageState::Closed, _) | (PageState::PartialOpen, true) => {
+                if self
+                    .inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
+                {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(empty_page_fit);
                 }
             }
-            PageState::Open => {
+            (PageState::Open, _) => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(empty_page_fit);
             }
-            PageState::PartialOpen => {
+            (PageState::PartialOpen, false) => {
                 // This should never happen
                 return Err(Error::Corrupted {
                     #[cfg(feature = "_test")]
@@ -400,9 +412,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(
+            ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
+                .map(|available| available.min(u32::from(u16::MAX))),
+        )
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From a953535dfd77197148a612766618da6c030ccc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:18 +0000
Subject: [PATCH 12/20] fix: count a completely popped single page as free
 space

---
 src/queue/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 2c8d72c..83e26c3 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -479,8 +479,9 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
             if ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
                 .is_none()
+                || self.inner.next_page(page) == page
             {
-                // No data fits on this partial open page anymore.
+                // No data fits on this partial open page anymore, or it's the only page and will be reused right away.
                 // So if all data on this is already erased, then this page might as well be counted as empty.
                 // We can use [is_page_empty] and lie to to it so it checks the items.
                 if self
-- 
2.43.0


From 13d8e5c619540880510bd012af5120e29bc5cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 13/20] fix: don't let a partially written item block the reuse
 of a queue page

---
 src/item.rs | 79 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 97dfb28..500d358 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -172,6 +172,49 @@ impl ItemHeader {
         }
     }
 
+    /// Check if the item is present and its data intact, without needing a buffer for the whole item.
+    async fn is_intact<S: NorFlash>(
+        &self,
+        flash: &mut S,
+        address: u32,
+    ) -> Result<bool, Error<S::Error>> {
+        let Some(header_crc) = self.crc else {
+            return Ok(false);
+        };
+
+        // Just like when reading the item, try a second time before concluding the data is bad
+        for _ in 0..2 {
+            let mut buffer = AlignedBuf([0; MAX_WORD_SIZE]);
+            let mut chunk_address = ItemHeader::data_address::<S>(address);
+            let mut remaining = self.length as usize;
+            let mut crc = CRC32_INITIAL;
+
+            while remaining > 0 {
+                let read_len = round_up_to_alignment_usize::<S>(remaining)
+                    .min(MAX_WORD_SIZE / S::WORD_SIZE * S::WORD_SIZE);
+                flash
+                    .read(chunk_address, &mut buffer[..read_len])
+                    .await
+                    .map_err(|e| Error::Storage {
+                        value: e,
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })?;
+
+                let data_len = read_len.min(remaining);
+                crc = !crc32_with_initial(&buffer[..data_len], crc);
+                chunk_address += read_len as u32;
+                remaining -= data_len;
+            }
+
+            if adapt_crc32(!crc) == header_crc {
+                return Ok(true);
+            }
+        }
+
+        Ok(false)
+    }
+
     async fn write<S: NorFlash>(&self, flash: &mut S, address: u32) -> Result<(), Error<S::Error>> {
         let mut buffer = AlignedBuf([0xFF; MAX_WORD_SIZE]);
 
@@ -448,7 +491,11 @@ fn crc16(data: &[u8]) -> u16 {
 
 /// Calculate the crc32 of the data as used by the crate.
 fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
-    match crc32(data) {
+    adapt_crc32(crc32(data))
+}
+
+fn adapt_crc32(crc: u32) -> NonZeroU32 {
+    match crc {
         // CRC may not be 0 as that already means 'erased'
         0 => NonZeroU32::new(1).unwrap(),
         // To aid in early shutoff/cancellation, we make sure that if the first byte of
@@ -461,10 +508,12 @@ fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
     }
 }
 
+/// We use a modified initial value because the normal 0xFFFFFFF does not pass
+/// the `crc32_all_ones_resistant` test
+const CRC32_INITIAL: u32 = 0xEEEE_EEEE;
+
 fn crc32(data: &[u8]) -> u32 {
-    // We use a modified initial value because the normal 0xFFFFFFF does not pass
-    // the `crc32_all_ones_resistant` test
-    crc32_with_initial(data, 0xEEEE_EEEE)
+    crc32_with_initial(data, CRC32_INITIAL)
 }
 
 fn crc32_with_initial(data: &[u8], initial: u32) -> u32 {
@@ -528,7 +577,7 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         }
     }
 
-    /// Checks if the page is open or closed with all items erased.
+    /// Checks if the page is open or closed with all items erased or corrupted.
     /// By definition a partial-open page is not empty since it can still be written.
     ///
     /// The page state can optionally be given if it's already known.
@@ -552,16 +601,24 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
                     calculate_page_end_address::<S>(self.flash_range.clone(), page_index)
                         - S::WORD_SIZE as u32;
 
-                Ok(ItemHeaderIter::new(
+                let mut headers = ItemHeaderIter::new(
                     self.cache
                         .first_item_after_erased(page_index)
                         .unwrap_or(page_data_start_address),
                     page_data_end_address,
-                )
-                .traverse(&mut self.flash, |header, _| header.crc.is_none())
-                .await?
-                .0
-                .is_none())
+                );
+
+                // Items that are corrupted (so maybe only partially written) can never be read and don't count
+                while let (Some(header), address) = headers
+                    .traverse(&mut self.flash, |header, _| header.crc.is_none())
+                    .await?
+                {
+                    if header.is_intact(&mut self.flash, address).await? {
+                        return Ok(false);
+                    }
+                }
+
+                Ok(true)
             }
             PageState::PartialOpen => Ok(false),
             PageState::Open => Ok(true),
-- 
2.43.0


From c782b957329142d111033f63c27d0758263a8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 14/20] fix: make an interrupted erase of a single-page queue
 recognizable

---
 src/cache/page_states.rs |  4 ++++
 src/queue/mod.rs         | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cache/page_states.rs b/src/cache/page_states.rs
index eb3eab1..d322704 100644
--- a/src/cache/page_states.rs
+++ b/src/cache/page_states.rs
@@ -157,6 +157,10 @@ impl SealedPageStatesCache for CalculatedPageStates {
                     Some(PageState::Closed) => {
                         // We've rediscovered ourselves and that's great
                     }
+                    Some(PageState::PartialOpen) if self.page_count == 1 => {
+                        // There's no other page that can become the anchor
+                        self.invalidate_cache_state();
+                    }
                     Some(PageState::PartialOpen) => {
                         let anchor = self.anchor.as_mut().unwrap();
                         // The anchor moves one up
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 83e26c3..5067ba0 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -242,6 +242,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         return Err(Error::FullStorage);
                     }
 
+                    if single_page {
+                        // If the erase gets interrupted, the end marker lets us recognize that
+                        self.inner.close_page(current_page).await?;
+                    }
                     self.inner.open_page(next_page).await?;
                     if !single_page {
                         self.inner.close_page(current_page).await?;
@@ -445,7 +449,9 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             let state = self.inner.get_page_state_cached(page).await?;
             let page_empty = self.inner.is_page_empty(page, Some(state)).await?;
 
-            if state.is_closed() && !page_empty {
+            let single_page = self.inner.next_page(page) == page;
+
+            if state.is_closed() && !page_empty && !single_page {
                 continue;
             }
 
@@ -479,7 +485,7 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
             if ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
                 .is_none()
-                || self.inner.next_page(page) == page
+                || single_page
             {
                 // No data fits on this partial open page anymore, or it's the only page and will be reused right away.
                 // So if all data on this is already erased, then this page might as well be counted as empty.
@@ -531,6 +537,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             return Ok(first_open_page);
         }
 
+        // A single page is closed just before it's erased, so if that didn't happen we can continue with it
+        if self.inner.page_count().get() == 1 {
+            return Ok(0);
+        }
+
         // All pages are closed... This is not correct.
         Err(Error::Corrupted {
             #[cfg(feature = "_test")]
-- 
2.43.0


From 1cc6a89d8712f77676828d2bcf278e04e93fb91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:20 +0000
Subject: [PATCH 15/20] fix: report a too small buffer when draining or reading
 the RAM ring

A too small scratch or data buffer made the drain functions report an empty ring
and pop and peek report an empty queue while items were pending.
---
 src/queue/buffered.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..6070fe6 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -124,6 +124,19 @@ impl<const N: usize> RamRing<N> {
         Ok(())
     }
 
+    /// Copy the oldest item into `buf` and return its length.
+    ///
+    /// Returns `Ok(None)` if the ring is empty and `Err(needed)` if `buf` is too small.
+    pub fn copy_oldest(&self, buf: &mut [u8]) -> Result<Option<usize>, usize> {
+        let Some(len) = self.oldest_len() else {
+            return Ok(None);
+        };
+        match self.peek_into(buf) {
+            Some(data) => Ok(Some(data.len())),
+            None => Err(len),
+        }
+    }
+
     /// Copy the oldest item into `buf` and return a slice of the written bytes.
     ///
     /// Returns `None` if the ring is empty or `buf` is smaller than [`oldest_len`][Self::oldest_len].
@@ -242,7 +255,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
     /// Drain one item from the RAM ring to flash.
     ///
     /// `scratch` is caller-provided temporary storage; it must be at least as large as the
-    /// oldest pending item.
+    /// oldest pending item, otherwise [`Error::BufferTooSmall`] is returned.
     ///
     /// Returns `Ok(true)` if an item was committed to flash, `Ok(false)` if the ring was empty.
     pub async fn drain_one(
@@ -250,10 +263,13 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let len = self
+            .ram
+            .copy_oldest(scratch)
+            .map_err(Error::BufferTooSmall)?;
+        let Some(len) = len else {
             return Ok(false);
         };
-        let len = data.len();
         self.storage.push(&scratch[..len], allow_overwrite).await?;
         self.ram.discard_oldest();
         Ok(true)
@@ -287,7 +303,10 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
+        let len = self
+            .ram
+            .copy_oldest(data_buffer)
+            .map_err(Error::BufferTooSmall)?;
         if let Some(len) = len {
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
@@ -311,7 +330,10 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
+        let len = self
+            .ram
+            .copy_oldest(data_buffer)
+            .map_err(Error::BufferTooSmall)?;
         if let Some(len) = len {
             return Ok(Some(&mut data_buffer[..len]));
         }
@@ -429,7 +451,8 @@ impl<const N: usize> SharedRamRing<N> {
 
     /// Drain one item from the ring to flash.
     ///
-    /// `scratch` must be at least [`oldest_ram_item_len`][Self::oldest_ram_item_len] bytes.
+    /// `scratch` must be at least [`oldest_ram_item_len`][Self::oldest_ram_item_len] bytes,
+    /// otherwise [`Error::BufferTooSmall`] is returned.
     /// Returns `Ok(true)` if an item was written, `Ok(false)` if the ring was empty.
     ///
     /// The critical section is held only for the brief ring peek/discard; the slow flash
@@ -442,7 +465,8 @@ impl<const N: usize> SharedRamRing<N> {
     ) -> Result<bool, Error<S::Error>> {
         let len = self
             .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
+            .lock(|r| r.borrow().copy_oldest(scratch))
+            .map_err(Error::BufferTooSmall)?;
         let Some(len) = len else {
             return Ok(false);
         };
-- 
2.43.0


From 957ded6e3e90ff4b141c2dd633fc76c964470cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:27 +0000
Subject: [PATCH 16/20] fix: do not discard an undrained item when the drained
 one was evicted

If an enqueue evicted the oldest item while drain_one was writing it to flash,
drain_one then discarded the next item, which was never drained.
---
 src/queue/buffered.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index 6070fe6..24848c0 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,9 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Number of items removed so far (wrapping). Identifies the oldest item.
+    #[allow(unused)]
+    removed: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +61,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            removed: 0,
         }
     }
 
@@ -159,6 +163,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.removed = self.removed.wrapping_add(1);
         }
     }
 
@@ -463,15 +468,22 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().copy_oldest(scratch))
-            .map_err(Error::BufferTooSmall)?;
-        let Some(len) = len else {
+        let (len, removed) = self.ring.lock(|r| {
+            let r = r.borrow();
+            (r.copy_oldest(scratch), r.removed)
+        });
+        let Some(len) = len.map_err(Error::BufferTooSmall)? else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut r = r.borrow_mut();
+            // A concurrent enqueue may have evicted the item that was just written, in which
+            // case the oldest item is now another one that hasn't been drained yet
+            if r.removed == removed {
+                r.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From d9e1152982cdb463eb1be683f898303efc6dbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 17/20] fix: reject a reversed flash range instead of
 underflowing

---
 src/map.rs       | 4 +++-
 src/queue/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 84652b3..9de3d30 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,9 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        if flash_range.end.saturating_sub(flash_range.start)
+            < (S::ERASE_SIZE as u32).saturating_mul(2)
+        {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 5067ba0..62d855d 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,7 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        if flash_range.end.saturating_sub(flash_range.start) < (S::ERASE_SIZE as u32) {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From 8254e568baae1b90f4d563bbf69d3ec0085fdf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 18/20] fix: report the number of bytes postcard really used

---
 src/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 9de3d30..9939684 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1371,7 +1371,8 @@ where
     where
         Self: Sized,
     {
-        Ok((postcard::from_bytes(buffer)?, buffer.len()))
+        let (value, unused) = postcard::take_from_bytes(buffer)?;
+        Ok((value, buffer.len() - unused.len()))
     }
 }
 
-- 
2.43.0


From fbc6d4bcad0b2af88576dec8a14abdaf7951056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 19/20] fix: do not let removed items return from a half-erased
 page

---
 src/map.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 9939684..d96e55e 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -673,10 +673,31 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
                 // If there's no closed pages, we only have open pages,
                 // so we can fall back to just the 0 index after which the rest of the logic should work fine.
-                self.inner
+                let last_used_page = self
+                    .inner
                     .find_last_page(0, PageState::Closed)
                     .await?
-                    .unwrap_or_default()
+                    .unwrap_or_default();
+
+                // If a repair was interrupted while erasing, the next page can still contain items even though it's seen as open.
+                // The items we're about to erase must not come back when that page is put to use.
+                let next_page = self.inner.next_page(last_used_page);
+                if self.inner.get_page_state_cached(next_page).await?.is_open()
+                    && ItemHeaderIter::new(
+                        calculate_page_address::<S>(self.flash_range(), next_page)
+                            + S::WORD_SIZE as u32,
+                        calculate_page_end_address::<S>(self.flash_range(), next_page)
+                            - S::WORD_SIZE as u32,
+                    )
+                    .next(&mut self.inner.flash)
+                    .await?
+                    .0
+                    .is_some()
+                {
+                    self.inner.open_page(next_page).await?;
+                }
+
+                last_used_page
             }
         };
 
-- 
2.43.0


From 7fdc9626454195f29e0029ad3ecf83643b66f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:20 +0000
Subject: [PATCH 20/20] fix: a key pointer cache without room for any key
 panicked on its first use

---
 src/cache/key_pointers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..5795b09 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -130,9 +130,12 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
-        let len = self.key_pointers.len();
-        self.key_pointers[len - 1] = Some(value);
-        move_to_front(self.key_pointers, len - 1);
+        // A cache that was made without room for any key remembers nothing
+        if let Some(last) = self.key_pointers.last_mut() {
+            *last = Some(value);
+            let last_index = self.key_pointers.len() - 1;
+            move_to_front(self.key_pointers, last_index);
+        }
     }
 }
 
-- 
2.43.0

