From 9e57d6f20d9fb39f5e395450aa7177694d0b7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/49] fix: a sell market order decremented the bid level
 quantity twice

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..6721c97 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,7 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
+                //level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 0a31f954ceba45b2f5e1ec12c78ce584266a95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 02/49] fix: an order amended to zero quantity stayed in the
 lookup cache or in its level

---
 trading-engine/src/orderbook/half_book.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 6721c97..e597f87 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -521,6 +521,9 @@ impl HalfBook {
         new_quantity: BookQuantity,
     ) -> Option<()> {        
         if let Some(price) = self.cache.get(&order_id) {
+            if new_quantity == 0 { // nothing is left of the order, so it leaves the book
+                return self.cancel_order(order_id)
+            }
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
                     self.total_quantity -= original_qty;
-- 
2.43.0


From 291bc79929f53d5097774dfff78f72ed7769b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 03/49] fix: empty (zero quantity) slots of a depth feed became
 price levels

---
 trading-engine/src/orderbook/half_book.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index e597f87..92bda82 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -85,7 +85,10 @@ impl HalfBook {
         level_snapshot: &Vec<LevelSnapshot>,
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
-        let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
+        // a zero quantity is an empty slot of the feed, not a level
+        let price_vec: Vec<BookPrice> = level_snapshot.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price).collect();
         // erase existing level where not in the snapshot
         // Collect keys to be removed
         let levels_to_remove: Vec<BookPrice> = self.levels.keys()
@@ -101,6 +104,7 @@ impl HalfBook {
         for level in level_snapshot {
             let price = level.book_price;
             let quantity = level.book_quantity;
+            if quantity == 0 { continue }
             
             if let Some(level) = self.levels.get_mut(&price) {
                 // there is a level for the price
@@ -161,7 +165,7 @@ impl HalfBook {
                     order_enum_vec.push(add_order);
                     //self.add_limit_order(limit_order).unwrap();
                 }
-            } else { // threre was no such price so something must have been added
+            } else if current_qty > 0 { // threre was no such price so something must have been added
                 let limit_order = LimitOrder {
                     order_id: virtual_counter.next_id(),
                     price,
-- 
2.43.0


From b4d6401ec715a0fbbfcb55a086791ef4e222f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 04/49] fix: unchecked integer parsing ignored the unused
 leading bytes, so stock prices lost their last two digits

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..3ee7dce 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -409,7 +409,7 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
-- 
2.43.0


From d9d6adf7462e97901db17d16f4446a1091008f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 05/49] fix: IFMSRPD0036 trade prices were parsed without
 regard to sign and decimal point

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From e767b18fc90ea2ee88b901cf14403103af23483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 06/49] fix: reporting a truncated or non-utf8 KRX payload
 panicked instead of returning the error

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..690b39f 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
-- 
2.43.0


From d5e507a02e81fd21926506ecefe9ae7640f902f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 07/49] fix: decoding into a reused snapshot left the previous
 number of effective levels

---
 trading-engine/src/data/krx/derivative_quote.rs | 2 ++
 trading-engine/src/data/krx/derivative_trade.rs | 2 ++
 trading-engine/src/data/krx/stock_quote.rs      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..14373de 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -205,6 +205,7 @@ impl IFMSRPD0034 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -452,6 +453,7 @@ impl IFMSRPD0035 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         
         let order_counter = get_krx_base_order_counter();
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..14be581 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -277,6 +277,7 @@ impl IFMSRPD0037 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
 
         let timestamp_converter = get_krx_timestamp_converter();
         let order_counter = get_krx_base_order_counter();
@@ -616,6 +617,7 @@ impl IFMSRPD0038 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..978e234 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -217,6 +217,7 @@ impl IFMSRPD0002 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -454,6 +455,7 @@ impl IFMSRPD0003 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
-- 
2.43.0


From 2a57b3b1f8042dcbb52a8bed783eec55de8eb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 08/49] fix: IFMSRPD0038 decoding into a buffer kept the
 previous price and count converters

---
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 14be581..87f577b 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -622,6 +622,9 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
-- 
2.43.0


From 3f8a451eecae17de0e6eea8f1dec59e07db6c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 09/49] fix: EWMA and EWMS measured every elapsed time from
 their creation instead of the last update

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From 3475d47ccf5d01845e5d4531dd2f2a04e4fbc163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 10/49] fix: the log order-flow imbalance took the logarithm of
 zero quantities

---
 trading-engine/src/feature/tick.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 5d4d7e9..872ca14 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -408,7 +408,7 @@ impl SimpleQuotes {
         let current_ask = &arriving_quotes.asks[level - 1];
 
         let res = if current_ask.price > previous_ask.price {
-            if current_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 {
                 - previous_ask.quantity.ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -419,7 +419,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_ask.price == previous_ask.price {
-            if previous_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 && current_ask.quantity > 0.0 {
                 (current_ask.quantity / previous_ask.quantity).ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -489,7 +489,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_bid.price == previous_bid.price {
-            if previous_bid.quantity > 0.0 {
+            if previous_bid.quantity > 0.0 && current_bid.quantity > 0.0 {
                 (current_bid.quantity / previous_bid.quantity).ln()
             } else { 
                 let current_bid_clone = current_bid.clone();
@@ -499,7 +499,7 @@ impl SimpleQuotes {
                 );
                 0.0 
             }
-        } else if current_bid.quantity > 0.0 {
+        } else if previous_bid.quantity > 0.0 {
             - previous_bid.quantity.ln()
         } else { 
             let current_bid_clone = current_bid.clone();
-- 
2.43.0


From 7f1bdd6f649b5c31e9e4d622cc6f8da1f3df2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 11/49] fix: updating the simple quotes kept the system time of
 the first snapshot

---
 trading-engine/src/feature/tick.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 872ca14..d133d1a 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -237,6 +237,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
@@ -271,6 +272,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
-- 
2.43.0


From 6ac81a7716ca584afb62814527cfa6da1c6527e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 12/49] fix: simple quotes made with a capacity had no levels,
 so their first update panicked

---
 trading-engine/src/feature/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index d133d1a..df21696 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -91,8 +91,8 @@ impl SimpleQuotes {
     pub fn with_capacity(capacity: usize) -> Self {
         let converter = get_default_order_converter();
         Self {
-            bids: Vec::with_capacity(capacity),
-            asks: Vec::with_capacity(capacity),
+            bids: vec![SimpleSnapshot::default(); capacity],
+            asks: vec![SimpleSnapshot::default(); capacity],
             level_cut: capacity,
             timestamp: TimeStamp::default(),
             system_time: TimeStamp::default(),
-- 
2.43.0


From 3a5c6fafbb62af3c73708879717981515e641a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 13/49] fix: years and months after hours in a tenor discarded
 the time already moved

---
 quantlib/src/utils/string_arithmetic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..80ca9e2 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,7 +187,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From 758c5fe4a71f2a818bde64db0644f248118eb07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 14/49] fix: sub_period took months reaching over two year ends
 off a year short

---
 quantlib/src/utils/string_arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 80ca9e2..272b88f 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -195,7 +195,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
                 let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
-- 
2.43.0


From c2444541e8f17071dd6308465a76c52ed9299cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 15/49] fix: western Good Friday was looked up in the orthodox
 Easter table and vice versa

---
 quantlib/src/time/holiday.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..20a9b86 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -28,9 +28,9 @@ pub trait Holidays {
         }
 
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From 5740bd15d29a3a07c8f2697505dbe5c4125c74dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 16/49] fix: election day is the Tuesday after the first Monday
 of November

---
 quantlib/src/time/calendars/unitedstates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/time/calendars/unitedstates.rs b/quantlib/src/time/calendars/unitedstates.rs
index c75adc6..d8fccd5 100644
--- a/quantlib/src/time/calendars/unitedstates.rs
+++ b/quantlib/src/time/calendars/unitedstates.rs
@@ -160,7 +160,7 @@ impl Holidays for UnitedStatesType {
                     return true;
                 }
                 if (y >= 1998 && (15..=21).contains(&d) && w == Weekday::Monday && m == Month::January) // Martin Luther King's birthday (third Monday in January)
-                || ((y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == Month::November && d <= 7 && w == Weekday::Tuesday)
+                || ((y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == Month::November && (2..=8).contains(&d) && w == Weekday::Tuesday)
                 // Presidential election days
                 {
                     return true;
-- 
2.43.0


From 1e260dc559165519ba74658e699a2448805e156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 17/49] fix: a schedule of one period ended and paid on the
 next regular date instead of at maturity

---
 quantlib/src/instruments/schedule.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..783d3eb 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -164,17 +164,11 @@ pub fn build_schedule(
     let mut calc_end_date: OffsetDateTime;
     let mut payment_date: OffsetDateTime;
     for i in 0..schedule_length {
-        if i == 0 {
-            calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
-            fixing_date = calendar.adjust(
-                &(calc_start_date - Duration::days(fixing_gap_days)),
-                &BusinessDayConvention::Preceding,
-            )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
-        } else if i == schedule_length - 1 {
-            calc_start_date = calc_start_date_vec[i];
+        if i == schedule_length - 1 {
+            calc_start_date = match i {
+                0 => *effective_date,
+                _ => calc_start_date_vec[i],
+            };
             calc_end_date = *maturity;
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
@@ -182,7 +176,10 @@ pub fn build_schedule(
             )?;
             payment_date = *maturity;
         } else {
-            calc_start_date = calc_start_date_vec[i];
+            calc_start_date = match i {
+                0 => *effective_date,
+                _ => calc_start_date_vec[i],
+            };
             calc_end_date = calc_start_date_vec[i + 1];
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
-- 
2.43.0


From abc6a7a97c20385bf57f1446ef8c7e8b1da3d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 18/49] fix: 30/360 with end of month lost thirty days between
 two month ends of 31 days

---
 quantlib/src/time/calendar_trait.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..a3fb634 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -236,12 +236,9 @@ pub trait CalendarTrait {
                 days += 360 * (year_upto - year_from);
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
-                if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
+                // the 31st counts as the 30th (at the end only if also at the start)
+                if day_from == 31 && day_upto != 31 {
+                    days += 1;
                 }
                 days as Time / 360.0
             }
-- 
2.43.0


From 9bd006cabd831ca23b624a6dc02afcf7af95983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 19/49] fix: act/act isda counted the last day of a year with
 the length of the next year

---
 quantlib/src/time/calendar_trait.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index a3fb634..1be257d 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -211,16 +211,14 @@ pub trait CalendarTrait {
                         let days = if end_year == start_year {
                             (*end_date - *start_date).whole_days() as Time
                         } else {
-                            let last_day_of_year =
-                                Date::from_calendar_date(year, Month::December, 31).unwrap();
-                            (last_day_of_year - start_date.date()).whole_days() as Time
+                            let next_new_year =
+                                Date::from_calendar_date(year + 1, Month::January, 1).unwrap();
+                            (next_new_year - start_date.date()).whole_days() as Time
                         };
                         frac += days / days_in_year;
                     } else if year == end_year {
-                        let last_day_of_previous_year =
-                            Date::from_calendar_date(year - 1, Month::December, 31).unwrap();
-                        let days =
-                            (end_date.date() - last_day_of_previous_year).whole_days() as Time;
+                        let new_year = Date::from_calendar_date(year, Month::January, 1).unwrap();
+                        let days = (end_date.date() - new_year).whole_days() as Time;
                         frac += days / days_in_year;
                     } else {
                         frac += 1.0; // Full year
-- 
2.43.0


From f8e10c01ae38dbcd069c1814e3905ef19170ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 20/49] fix: the time difference to an earlier year was zero
 instead of negative

---
 quantlib/src/time/calendar_trait.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 1be257d..45e36cc 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -287,9 +287,12 @@ pub trait CalendarTrait {
     /// then, sum up the two times
     fn get_time_difference(&self, start_date: &OffsetDateTime, end_date: &OffsetDateTime) -> Time {
         //let midnight_last_day_of_year_start = OffsetDateTime::new_in_offset(last_day_of_year_start, time::Time::MIDNIGHT, start_date_offset);
+        if end_date < start_date {
+            return -self.get_time_difference(end_date, start_date);
+        }
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
-        let end_year = end_date.year();
+        let end_year = end_date.to_offset(start_date.offset()).year();
 
         for year in start_year..=end_year {
             let days_in_year: Time = if self.is_leap_year(year) {
-- 
2.43.0


From eaf13b38dd2f8b59aba670ecb0cec68e2458ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 21/49] fix: linear interpolation at the last pillar was
 refused as out of range

---
 quantlib/src/math/interpolators/linear_interpolator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 4eb1b54..98ee2b8 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -92,7 +92,10 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                 ));
             }
         }
-        if x >= self.domain[n - 1] {
+        if x == self.domain[n - 1] {
+            return Ok(self.value[n - 1]);
+        }
+        if x > self.domain[n - 1] {
             if self.allow_extrapolation {
                 if self.extrapolation_type == ExtraPolationType::Flat {
                     return Ok(self.value[n - 1]);
@@ -154,7 +157,9 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                         x[i]
                     ));
                 }
-            } else if x[i] >= self.domain[domain_n - 1] {
+            } else if x[i] == self.domain[domain_n - 1] {
+                result[i] = self.value[domain_n - 1];
+            } else if x[i] > self.domain[domain_n - 1] {
                 if self.allow_extrapolation {
                     if self.extrapolation_type == ExtraPolationType::Flat {
                         result[i] = self.value[domain_n - 1];
-- 
2.43.0


From 42be4a2ecc03a0c818a90fadaa7e31917d32742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 22/49] fix: bilinear interpolation at the last time was
 refused as out of range

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..e8e76ec 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -165,7 +165,9 @@ impl BilinearInterpolator {
                     self.t_domain
                 ))
             }
-        } else if t >= self.t_domain[n - 1] {
+        } else if t == self.t_domain[n - 1] {
+            Ok(self.x_interpolator[n - 1].interpolate(x)?)
+        } else if t > self.t_domain[n - 1] {
             if self.t_domain_allow_extrapolation {
                 match self.t_domain_extrapolation_type {
                     ExtraPolationType::Flat => Ok(self.x_interpolator[n - 1].interpolate(x)?),
-- 
2.43.0


From 4067311204cd16ba1ee376731ccd6712bfa7d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 23/49] fix: vectorized stepwise interpolation ignored the
 extrapolation values

---
 .../src/math/interpolators/stepwise_interpolatior.rs     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..2aa99c5 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,7 +117,14 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
-                result[i] = self.value[index[i]];
+                result[i] = if x[i] < left_bound {
+                    self.left_extrapolation_value.unwrap_or(self.value[0])
+                } else if x[i] > right_bound {
+                    self.right_extrapolation_value
+                        .unwrap_or(self.value[self.value.len() - 1])
+                } else {
+                    self.value[index[i]]
+                };
             }
         }
         Ok(result)
-- 
2.43.0


From 7d5f76ec317876344c31e0fa46f2c14916d507b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 24/49] fix: floating coupons of a swap lost their notional
 once the effective date had passed

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From d1ec9389076b1e048098b263009afaf4f64b136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 25/49] fix: expected coupons of one payment time overwrote
 each other instead of adding up

---
 quantlib/src/pricing_engines/npv_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..4e70b33 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -75,13 +75,13 @@ impl NpvResult {
     }
 
     pub fn get_expected_coupon_amount(&self) -> Result<HashMap<OffsetDateTime, Real>> {
-        let mut res = HashMap::new();
+        let mut res: HashMap<OffsetDateTime, Real> = HashMap::new();
         for (id, (datetime, amount)) in self.cashflow_amounts.iter() {
             let prob = self
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From 78ee1bad07cc4e4fd82a0f3110433724a1c6ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 26/49] fix: a dividend whose ex-dates have all passed panicked
 instead of leaving nothing to deduct

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..d35d4ba 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -88,7 +88,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         let mut checker = 0;
-        while i < ex_dividend_dates.len() {
+        while i < ex_dividend_dates.len() && checker < ex_dividend_dates.len() {
             if ex_dividend_dates[checker] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
@@ -252,7 +252,7 @@ impl DiscreteRatioDividend {
 
         let mut i = 0;
         let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
+        while i < self.ex_dividend_dates.len() && checker < self.ex_dividend_dates.len() {
             if self.ex_dividend_dates[checker] < eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
-- 
2.43.0


From 2778dbad523dfd8e5146791471193a11ab46a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 27/49] fix: a dividend going ex at the very evaluation time
 was deducted from the price and again from the forward

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index d35d4ba..6b6927b 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -80,7 +80,8 @@ impl DiscreteRatioDividend {
             //let time = time_calculator.get_time_difference(&marking_offsetdatetime, date);
             //ex_dividend_times[i] = time;
         }
-        // drop data of ex-dividend date and dividend amount before the evaluation-date
+        // drop data of ex-dividend date and dividend amount not after the evaluation-date,
+        // which MarketPrice has already deducted
         let eval_dt = evaluation_date.to_owned().borrow().get_date_clone();
         let mut ex_dividend_dates_for_interpolator = ex_dividend_dates.clone();
         let mut div_yields_vec = dividend_yields.to_vec();
@@ -89,7 +90,7 @@ impl DiscreteRatioDividend {
         let mut i = 0;
         let mut checker = 0;
         while i < ex_dividend_dates.len() && checker < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
+            if ex_dividend_dates[checker] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
@@ -253,7 +254,7 @@ impl DiscreteRatioDividend {
         let mut i = 0;
         let mut checker = 0;
         while i < self.ex_dividend_dates.len() && checker < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
+            if self.ex_dividend_dates[checker] <= eval_dt {
                 ex_dividend_dates_for_interpolator.remove(i);
                 div_yields_vec.remove(i);
                 date_integers_for_interpolator_vec.remove(i);
-- 
2.43.0


From 9224dd654811c38fe9ee302895adfccafa8ff5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 28/49] fix: bumping dividends brought those already paid back
 into the deduction ratio

---
 .../src/parameters/discrete_ratio_dividend.rs | 31 +++----------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index 6b6927b..6c1a4f1 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -215,33 +215,12 @@ impl DiscreteRatioDividend {
 
         // update self.dividend_amounts
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
-        // update self.dividend_yields and remake a incremental_deduction_ratio
+        // update self.dividend_yields
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
-        Ok(())
+        // update self.deduction_interpolator, where the dividends already paid must stay out
+        let evaluation_date = self.evaluation_date.clone();
+        let date = evaluation_date.borrow();
+        self.update_evaluation_date(&date)
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-- 
2.43.0


From 271ec7860f694eaf54a12fd8cf570c44c4dba7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 29/49] fix: the floating leg currency of a swap was left out
 of a portfolio's currencies

---
 quantlib/src/instrument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..2f1325f 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -361,7 +361,7 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                "IRS" | "CRS" | "FxSwap" | "FxForward" | "FxSpot" => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From ae5a2102211e531f6bbfc3e723948189a62b342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 30/49] fix: a cash position answered its name when asked for
 its code, so results were filed under the name

---
 quantlib/src/instruments/cash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/cash.rs b/quantlib/src/instruments/cash.rs
index d31dce1..b3223f2 100644
--- a/quantlib/src/instruments/cash.rs
+++ b/quantlib/src/instruments/cash.rs
@@ -30,7 +30,7 @@ impl InstrumentTrait for Cash {
         1.0
     }
     fn get_code(&self) -> &String {
-        &self.name
+        &self.code
     }
 
     fn get_currency(&self) -> &Currency {
-- 
2.43.0


From 43fedb2932502deacd8dc7943114e57be98efbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 31/49] fix: vega matrices of one underlying were reported
 under the next one too

---
 quantlib/src/pricing_engines/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e118ac9..64ba28f 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1373,7 +1373,7 @@ impl Engine {
         let mut npv: Real;
         let mut npv_up: Real;
         // inst code (String) -> Array2<Real>
-        let mut single_vega_matrix: HashMap<String, Array2<Real>> = HashMap::new();
+        let mut single_vega_matrix: HashMap<String, Array2<Real>>;
         let exclude_type = vec!["Cash", "Stock", "Futures"];
         let exclude_type_clone = exclude_type.clone();
 
@@ -1396,6 +1396,8 @@ impl Engine {
                 .instruments
                 .get_all_inst_code_clone(Some(&self.instruments_in_action));
 
+            // only the instruments of this underlying are reported under it
+            single_vega_matrix = HashMap::new();
             for inst_code in inst_codes_in_action.iter() {
                 let init = Array2::zeros((calc_times.len(), spot_moneyness.len()));
                 single_vega_matrix.insert(inst_code.clone(), init);
-- 
2.43.0


From cb2fee70e6c2e4f267879e1bea97cec2b2147bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 32/49] fix: dividend sensitivities panicked when an underlying
 has no dividend data

---
 quantlib/src/pricing_engines/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 64ba28f..214bcb0 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1543,6 +1543,10 @@ impl Engine {
             if self.instruments_in_action.is_empty() {
                 continue;
             }
+            // dividend data are optional: without them there is nothing to bump
+            if !matches!(self.dividends.get(div_code), Some(Some(_))) {
+                continue;
+            }
             // bump dividend but limit the scope that is mutably borrowed
             {
                 self.dividends
@@ -1873,6 +1877,10 @@ impl Engine {
             if self.instruments_in_action.is_empty() {
                 continue;
             }
+            // dividend data are optional: without them there is nothing to bump
+            if !matches!(self.dividends.get(div_code), Some(Some(_))) {
+                continue;
+            }
             // initialize the single_div_structure. insert the inst code and zero vector
             let inst_codes_in_action = self
                 .instruments
-- 
2.43.0


From 59688fbd03c268e5b833148a65db47d19f3e824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 33/49] fix: no pricer could be made for an interest rate swap

---
 quantlib/src/pricing_engines/pricer_factory.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 5bd8205..0eda77f 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -350,16 +350,25 @@ impl PricerFactory {
     }
 
     fn get_plain_swap_pricer(&self, instrument: &Rc<Instrument>) -> Result<Pricer> {
-        let fixed_leg_discount_curve_name = self.match_parameter.get_crs_curve_name(instrument)?;
+        // a swap in one currency discounts on its rate index curve, see MatchParameter
+        let single_currency = instrument.get_type_name() == "IRS";
+        let fixed_leg_discount_curve_name = if single_currency {
+            self.match_parameter.get_discount_curve_name(instrument)?
+        } else {
+            self.match_parameter.get_crs_curve_name(instrument)?
+        };
         let fixed_leg_discount_curve = self.zero_curves.get(fixed_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get fixed leg discount curve of {}.\nself.zero_curves does not have {}",
                 file!(), line!(), instrument.get_code(), fixed_leg_discount_curve_name,
             ))?.clone();
 
-        let floating_leg_discount_curve_name = self
-            .match_parameter
-            .get_floating_crs_curve_name(instrument)?;
+        let floating_leg_discount_curve_name = if single_currency {
+            self.match_parameter.get_discount_curve_name(instrument)?
+        } else {
+            self.match_parameter
+                .get_floating_crs_curve_name(instrument)?
+        };
         let floating_leg_discount_curve = self.zero_curves.get(floating_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get floating leg discount curve of {}.\nself.zero_curves does not have {}",
-- 
2.43.0


From f52aa09681cef0cd0db3897ae6fa23510fc08323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 34/49] fix: making a pricer for a KTBF panicked

---
 quantlib/src/pricing_engines/pricer_factory.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 0eda77f..f85c9bd 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -287,9 +287,18 @@ impl PricerFactory {
             )
             })?
             .clone();
-        let collateral_curve_name = self
+        // a KTBF has no underlying codes
+        let collateral_curve_names = self
             .match_parameter
-            .get_collateral_curve_names(instrument)?[0];
+            .get_collateral_curve_names(instrument)?;
+        let collateral_curve_name = *collateral_curve_names.first().ok_or_else(|| {
+            anyhow::anyhow!(
+                "({}:{}) failed to get collateral curve name of {}",
+                file!(),
+                line!(),
+                instrument.get_code(),
+            )
+        })?;
         let collateral_curve = self
             .zero_curves
             .get(collateral_curve_name)
-- 
2.43.0


From f82eee910430b2785fb27734a9fe74d0fd957942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 35/49] fix: rho structure dropped the pillars after the last
 maturity, which still move its rates

---
 quantlib/src/pricing_engines/engine.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 214bcb0..0053b32 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1814,16 +1814,6 @@ impl Engine {
                     .borrow_mut()
                     .bump_time_interval(bump_start, bump_end, -bump_val)?;
                 }
-
-                // if there is no instrument over the calc_tenors, we do not need to calculate the next bump
-                let inst_over_bump_end = self.instruments.instruments_with_maturity_over(
-                    Some(&self.instruments_in_action),
-                    &calc_dates[i],
-                    Some(exclude_type_clone.clone()),
-                );
-                if inst_over_bump_end.is_empty() {
-                    break;
-                }
             }
 
             for (inst_code, rho_structure) in single_rho_structure.iter() {
-- 
2.43.0


From b04ac926c708bac4d1ebd5e370c9110d0c52ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 36/49] fix: delta and gamma ignored the stickyness type

---
 quantlib/src/pricing_engines/engine.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 0053b32..2c91497 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -880,6 +880,14 @@ impl Engine {
         Ok(())
     }
 
+    /// The volatility follows the price of its underlying as the stickyness type says
+    fn rebuild_volatility(&self, und_code: &String) -> Result<()> {
+        if let Some(volatility) = self.volatilities.get(und_code) {
+            volatility.borrow_mut().build()?;
+        }
+        Ok(())
+    }
+
     pub fn set_delta_gamma(&mut self) -> Result<()> {
         self.reset_instruments_in_action();
 
@@ -926,6 +934,7 @@ impl Engine {
 
                 *equity *= up_bump;
             }
+            self.rebuild_volatility(und_code)?;
 
             delta_up_map = self.get_npvs().context("failed to get npvs")?;
             {
@@ -938,6 +947,7 @@ impl Engine {
                 equity.set_price(original_price);
                 *equity *= down_bump;
             }
+            self.rebuild_volatility(und_code)?;
 
             delta_down_map = self.get_npvs().context("failed to get npvs")?;
 
@@ -1000,6 +1010,7 @@ impl Engine {
                 .borrow_mut()
                 .set_price(original_price);
             }
+            self.rebuild_volatility(und_code)?;
         }
 
         Ok(())
-- 
2.43.0


From db394d6d183b27e4a1e9bdbcb52323db69b2b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 37/49] fix: the KRX price of a bond with nothing left to be
 paid was not a number

---
 quantlib/src/pricing_engines/krx_yield_pricer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index 127e53d..182d584 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -117,7 +117,6 @@ impl PricerTrait for KrxYieldPricer {
         let cal = bond.get_calendar()?;
         let mut diff: Real;
         let daycounter = self.daycount;
-        let maturity = bond.get_maturity().unwrap();
 
         let cashflow = bond
             .get_cashflows(
@@ -136,11 +135,14 @@ impl PricerTrait for KrxYieldPricer {
             })?;
 
         // get minimum date after the pricing date (the key of cashflow)
-        let min_cashflow_date = cashflow
+        let min_cashflow_date = match cashflow
             .keys()
             .filter(|&date| date.date() > pricing_date.date())
             .min()
-            .unwrap_or(maturity);
+        {
+            Some(date) => date,
+            None => return Ok(0.0), // nothing is left to be paid
+        };
 
         if !cashflow.is_empty() {
             for (date, amount) in cashflow.iter() {
-- 
2.43.0


From 45399ee9ae680dd63f9c22308fd5da18aca89bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 38/49] fix: a quanto option paid on the unadjusted forward

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 6ca92d0..44c26b6 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -90,6 +90,9 @@ impl PricerTrait for OptionAnalyticPricer {
             None => 0.0,
         };
 
+        // the underlying grows at the quanto adjusted rate in the currency of the option
+        let quanto_fwd = fwd * (-quanto_adjustment).exp();
+
         let y = forward_moneyness.ln();
         let option_type = instrument.get_option_type()?;
 
@@ -103,8 +106,8 @@ impl PricerTrait for OptionAnalyticPricer {
         let nd2 = normal.cdf(d2 as f64) as Real;
 
         match option_type {
-            OptionType::Call => Ok(dsc * (fwd * nd1 - strike * nd2)),
-            OptionType::Put => Ok(dsc * (strike * (1.0 - nd2) - fwd * (1.0 - nd1))),
+            OptionType::Call => Ok(dsc * (quanto_fwd * nd1 - strike * nd2)),
+            OptionType::Put => Ok(dsc * (strike * (1.0 - nd2) - quanto_fwd * (1.0 - nd1))),
         }
     }
 
-- 
2.43.0


From 33d83e589b894b5320061774c7d0c31b48ba93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 39/49] fix: finding a bond's yield failed when the first guess
 was the answer

---
 quantlib/src/pricing_engines/krx_yield_pricer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index 182d584..89bd37a 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -55,6 +55,10 @@ impl KrxYieldPricer {
 
         let solver = SteepestDescent::new(linesearch);
         let init_param = init_guess.unwrap_or(0.02);
+        // at the solution there is no direction to descend, which the solver takes for an error
+        if problem.cost(&init_param)? <= 1.0e-9 {
+            return Ok(init_param);
+        }
         let executor = Executor::new(problem, solver)
             .configure(|state| state.param(init_param).max_iters(30).target_cost(1.0e-9));
 
-- 
2.43.0


From b70325e9447b19bff94fb319a9d7d3d7f44c908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 40/49] fix: a pair of currencies could not be read back from
 its own text

---
 quantlib/src/currency.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..9c3ad8f 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::de::{value::StrDeserializer, Error};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +174,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +190,22 @@ impl Serialize for FxCode {
     }
 }
 
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<FxCode, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let s = String::deserialize(deserializer)?;
+        let (c1, c2) = s
+            .split_once('_')
+            .ok_or_else(|| D::Error::custom(format!("{} is not of the form KRW_USD", s)))?;
+        Ok(FxCode {
+            currency1: Currency::deserialize(StrDeserializer::new(c1))?,
+            currency2: Currency::deserialize(StrDeserializer::new(c2))?,
+        })
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0


From 45fab686b2f53cb21a754f4a1047f7566cbb28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:57 +0000
Subject: [PATCH 41/49] fix: an interpolator without pillars was not refused

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 7 +++++++
 quantlib/src/math/interpolators/linear_interpolator.rs   | 3 +++
 quantlib/src/util.rs                                     | 4 ++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index e8e76ec..93735ec 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -46,6 +46,13 @@ impl BilinearInterpolator {
                 x_interpolator
             ));
         }
+        if n == 0 {
+            return Err(anyhow!(
+                "({}:{}) t_domain and x_interpolator must not be empty",
+                file!(),
+                line!()
+            ));
+        }
         if !is_ndarray_sorted(&t_domain) {
             return Err(anyhow!(
                 "({}:{}) t_domain must be sorted: \n{:?}",
diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 98ee2b8..a0504ea 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -43,6 +43,9 @@ impl LinearInterpolator1D {
             message.push_str(&format!("\nvalue: {:?}", value));
             return Err(anyhow!(message));
         }
+        if n == 0 {
+            return Err(anyhow!("domain and value must not be empty"));
+        }
         // the domain must be sorted
         if !is_ndarray_sorted(&domain) {
             return Err(anyhow!("domain must be sorted: \n{:?}", &domain));
diff --git a/quantlib/src/util.rs b/quantlib/src/util.rs
index b77ed7d..5ce7568 100644
--- a/quantlib/src/util.rs
+++ b/quantlib/src/util.rs
@@ -32,8 +32,8 @@ pub fn is_ndarray_sorted<T>(arr: &Array1<T>) -> bool
 where
     T: PartialOrd,
 {
-    for i in 0..arr.len() - 1 {
-        if arr[i] > arr[i + 1] {
+    for i in 1..arr.len() {
+        if arr[i - 1] > arr[i] {
             return false;
         }
     }
-- 
2.43.0


From a315909580f6581ffbc2c051c5e42d5642454e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:57 +0000
Subject: [PATCH 42/49] fix: a surface with maturities out of order was not
 refused

---
 quantlib/src/math/interpolators/bilinear_interpolator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 93735ec..8c2db25 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -93,6 +93,15 @@ impl BilinearInterpolator {
             ));
         }
 
+        if !is_ndarray_sorted(&t_domain) {
+            return Err(anyhow!(
+                "({}:{}) t_domain must be sorted: \n{:?}",
+                file!(),
+                line!(),
+                &t_domain
+            ));
+        }
+
         if n != values.shape()[0] {
             return Err(anyhow!(
                 "({}:{}) t_domain and z_values must have the same length\n\
-- 
2.43.0


From b4d0b0c994c1d05bfd5c3238ad790702359f6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:08 +0000
Subject: [PATCH 43/49] fix: a bond from conventions with both or neither of
 rate and index was not refused

---
 quantlib/src/instruments/bond.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 525127d..09acbce 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -175,6 +175,17 @@ impl Bond {
         name: String,
         code: String,
     ) -> Result<Bond> {
+        // exactly one of fixed_coupon_rate and rate_index must be given
+        if fixed_coupon_rate.is_some() == rate_index.is_some() {
+            return Err(anyhow!(
+                "{}:{} name = {}, code = {}\n\
+                Exactly one of fixed_coupon_rate and rate_index must be given",
+                file!(),
+                line!(),
+                &name,
+                &code
+            ));
+        }
         let schedule = build_schedule(
             forward_generation,
             &effective_date,
-- 
2.43.0


From 6be9f19a427260af3f4e5e673dfc8da8aaa57c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:08 +0000
Subject: [PATCH 44/49] fix: an interest rate swap from conventions over two
 currencies was not refused

---
 quantlib/src/instruments/plain_swap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 8e5bdd9..1947a47 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -335,6 +335,7 @@ impl PlainSwap {
             && last_floating_side_endorsement.is_none()
             && rate_index.is_some()
             && fixed_rate.is_some()
+            && fixed_leg_currency == floating_leg_currency
         {
             specific_type = PlainSwapType::IRS;
         }
-- 
2.43.0


From b828da649a54716e0850dd3848b255861d43f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:03 +0000
Subject: [PATCH 45/49] fix: a bond did not tell its rank

---
 quantlib/src/instruments/bond.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 09acbce..311c933 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -282,6 +282,10 @@ impl InstrumentTrait for Bond {
         Ok(&self.issuer_type)
     }
 
+    fn get_rank_type(&self) -> Result<&RankType> {
+        Ok(&self.rank)
+    }
+
     fn get_issuer_name(&self) -> Result<&String> {
         Ok(&self.issuer_name)
     }
-- 
2.43.0


From d3ca6258fe180862175d176425dedfc35f073164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 46/49] fix: the flows of a floating leg asked for without a
 curve panicked

---
 quantlib/src/instruments/bond.rs       | 10 +++++++++-
 quantlib/src/instruments/plain_swap.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 311c933..fc3c871 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -342,7 +342,15 @@ impl InstrumentTrait for Bond {
                             let amount = rate_index.get_coupon_amount(
                                 base_schedule,
                                 self.floating_coupon_spread,
-                                forward_curve.clone().unwrap(),
+                                forward_curve.clone().ok_or_else(|| {
+                                    anyhow!(
+                                        "({}:{}) a floating coupon of {} ({}) needs a forward curve",
+                                        file!(),
+                                        line!(),
+                                        self.name,
+                                        self.code
+                                    )
+                                })?,
                                 past_data
                                     .clone()
                                     .unwrap_or(Rc::new(DailyClosePrice::default())),
diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 1947a47..eeb03ec 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -528,7 +528,15 @@ impl InstrumentTrait for PlainSwap {
             let amount = rate_index.get_coupon_amount(
                 base_schedule,
                 None,
-                forward_curve.clone().unwrap(),
+                forward_curve.clone().ok_or_else(|| {
+                    anyhow!(
+                        "({}:{}) a floating coupon of {} ({}) needs a forward curve",
+                        file!(),
+                        line!(),
+                        self.name,
+                        self.code
+                    )
+                })?,
                 past_fixing_data
                     .clone()
                     .unwrap_or(Rc::new(DailyClosePrice::default())),
-- 
2.43.0


From f032851b8a989fb9ef7afdf1f5d01298c41dc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:22 +0000
Subject: [PATCH 47/49] fix: a number behind a sign or unused characters was
 cut off at its end

The digits of a field start behind the sign and the unused characters, but their end was counted from
the start of the field, so a field with several of those (or with a point at the very end) panicked.
---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 3ee7dce..f51dd02 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -359,7 +359,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From f836807bc70ae92ecbee09f42651b7bf05f0679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:22 +0000
Subject: [PATCH 48/49] fix: a number of sixteen digits and a point was not
 read

Without the point nothing is left behind the first sixteen digits, and reading these nothing shifts a
word by its whole width.
---
 trading-engine/src/utils/numeric_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f51dd02..c226326 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -287,6 +287,9 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
         (16..=32).contains(&length),
         "parse_under32: length must be less than or equal to 32"
     );
+    if length == 16 {
+        return parse_under16(u, 16);
+    }
     let (upper, lower) = u.split_at(16);
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
-- 
2.43.0


From bc9b1e5fe6539a462f0185e6b42cc6bb5aa8b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 49/49] fix: a number converter written as JSON could not be
 read back

Reading expects the configuration alone, writing wrote everything derived from it around it.
---
 trading-engine/src/utils/numeric_converter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index c226326..b1b8b23 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -19,7 +19,7 @@ use crate::types::timestamp::{
     FIFTEEN_HOURS_NANOSCALE,
 };
 use anyhow::{anyhow, Result};
-use serde::{de::Deserializer, Deserialize, Serialize};
+use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 use std::ptr::read_unaligned;
 
 /// decimal_point_length includes the decimal point itself
@@ -294,7 +294,7 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
 
-#[derive(Debug, Serialize)]
+#[derive(Debug)]
 pub struct IntegerConverter {
     numcfg: NumReprCfg,
     is_signed: bool,
@@ -303,10 +303,19 @@ pub struct IntegerConverter {
     decimal_point_length: usize,
     decimal_number_point_length_i32: i32,
     parsing_length: usize,
-    #[serde(skip)]
     parser: fn(&[u8], usize, usize) -> u64,
 }
 
+impl Serialize for IntegerConverter {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        // the configuration is what Deserialize makes the converter of
+        self.numcfg.serialize(serializer)
+    }
+}
+
 impl<'de> Deserialize<'de> for IntegerConverter {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
-- 
2.43.0

