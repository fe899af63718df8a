From ae6189d7deae8272155b209fe8deadf2cb9202c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 01/47] fix: give a default DataSpinQueue a real buffer, so
 that using or dropping it is sound

---
 trading-engine/src/spinqueue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..4949783 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -64,7 +64,7 @@ where T: Clone + Debug + Default
 {
     fn default() -> Self {
         DataSpinQueue {
-            data_buffer: AtomicPtr::default(),
+            data_buffer: AtomicPtr::new(Box::into_raw(Box::new(T::default()))),
             worker_status: WorkerStatus::new(0),
             full_status: 0,
             //workers: Vec::new(),
-- 
2.43.0


From 2f702e8712920d330d64c5b66c3a9a68ed49bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 02/47] fix: logging after the logger has been finalized no
 longer panics in the caller

---
 trading-engine/src/logger.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 285b582..061d8d4 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -330,7 +330,8 @@ macro_rules! log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func))).unwrap();
+            // the logger may already be finalized: logging must not bring its caller down
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func)));
         }
     }};
 
@@ -358,7 +359,8 @@ macro_rules! log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func))).unwrap();
+            // the logger may already be finalized: logging must not bring its caller down
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func)));
         }
     }};
 }
@@ -430,7 +432,8 @@ macro_rules! flushing_log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func))).unwrap();
+            // the logger may already be finalized: logging must not bring its caller down
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func)));
         }
     }};
 
@@ -458,7 +461,8 @@ macro_rules! flushing_log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func))).unwrap();
+            // the logger may already be finalized: logging must not bring its caller down
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func)));
         }
     }};
 }
-- 
2.43.0


From 280d0916724f57733f928cc065ee4f5b91260410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 03/47] fix: the struct form of the logging macros names the
 log level that exists

---
 trading-engine/src/logger.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 061d8d4..db0848f 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -337,7 +337,7 @@ macro_rules! log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
@@ -439,7 +439,7 @@ macro_rules! flushing_log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
-- 
2.43.0


From a3857a6783f95384ce75af999e4f2ce0cfc5644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 04/47] fix: a disk or console error no longer kills the logger
 thread

---
 trading-engine/src/logger.rs | 49 ++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index db0848f..16ddb6c 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -8,7 +8,7 @@ use crossbeam_channel::{unbounded, Sender};
 use once_cell::sync::Lazy;
 use std::{
     fs::{File, OpenOptions},
-    io::{BufWriter, Write},
+    io::{stderr, stdout, BufWriter, Write},
     path::PathBuf,
 };
 use std::{
@@ -51,9 +51,9 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                     {
                         if let Some(ref mut writer) = writer {
                             let output = message_queue.join("");
-                            writer.write_all(output.as_bytes()).unwrap();
+                            report_io_error(writer.write_all(output.as_bytes()));
                             if CONSOLE_REPORT.load(Ordering::Relaxed) {
-                                println!("{}", output);
+                                let _ = writeln!(stdout(), "{}", output);
                             }
 
                             message_queue.clear();
@@ -67,9 +67,9 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
 
                     if let Some(ref mut writer) = writer {
                         let output = message_queue.join("");
-                        writer.write_all(output.as_bytes()).unwrap();
+                        report_io_error(writer.write_all(output.as_bytes()));
                         if CONSOLE_REPORT.load(Ordering::Relaxed) {
-                            println!("{}", output);
+                            let _ = writeln!(stdout(), "{}", output);
                         }
                         message_queue.clear();
                         last_flush_time = get_unix_nano();
@@ -85,9 +85,9 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                     {
                         if let Some(ref mut writer) = writer {
                             let output = message_queue.join("");
-                            writer.write_all(output.as_bytes()).unwrap();
+                            report_io_error(writer.write_all(output.as_bytes()));
                             if CONSOLE_REPORT.load(Ordering::Relaxed) {
-                                println!("{}", output);
+                                let _ = writeln!(stdout(), "{}", output);
                             }
 
                             message_queue.clear();
@@ -97,25 +97,13 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                 }
                 LogMessage::SetFile(file_name) => {
                     if let Some(ref mut writer) = writer {
-                        writer.flush().unwrap();
+                        report_io_error(writer.flush());
                         let _ = writer.get_mut().sync_all();
-                        *writer = OpenOptions::new()
-                            .create(true)
-                            .append(true)
-                            .open(file_name)
-                            .map(BufWriter::new)
-                            .unwrap();
-                    } else {
-                        writer = Some(BufWriter::new(
-                            OpenOptions::new()
-                                .create(true)
-                                .append(true)
-                                .open(&file_name)
-                                .map_err(|e| {
-                                    anyhow!("Failed to open file: {} [{}]", file_name.display(), e)
-                                })
-                                .unwrap(),
-                        ));
+                    }
+                    match OpenOptions::new().create(true).append(true).open(&file_name) {
+                        Ok(file) => writer = Some(BufWriter::new(file)),
+                        // keep on with the file there was, if any
+                        Err(e) => report_io_error(Err(e)),
                     }
                 }
                 LogMessage::SetCore => {
@@ -128,8 +116,8 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                 }
                 LogMessage::Close => {
                     if let Some(ref mut writer) = writer {
-                        writer.write_all(message_queue.join("").as_bytes()).unwrap();
-                        writer.flush().unwrap();
+                        report_io_error(writer.write_all(message_queue.join("").as_bytes()));
+                        report_io_error(writer.flush());
                         let _ = writer.get_mut().sync_all();
                     }
                     break;
@@ -140,6 +128,13 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
     sender
 });
 
+/// A failing disk or console costs log records, not the logger.
+fn report_io_error(result: std::io::Result<()>) {
+    if let Err(e) = result {
+        let _ = writeln!(stderr(), "logger: {}", e);
+    }
+}
+
 pub enum TimeZone {
     Local,
     Seoul,
-- 
2.43.0


From 49d5b4c6c9b6c1ff58a63b20528ad7135ae40a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 05/47] fix: a flushing log record is flushed to its file, not
 left in the writer's buffer

---
 trading-engine/src/logger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 16ddb6c..72cc002 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -67,7 +67,7 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
 
                     if let Some(ref mut writer) = writer {
                         let output = message_queue.join("");
-                        report_io_error(writer.write_all(output.as_bytes()));
+                        report_io_error(writer.write_all(output.as_bytes()).and_then(|_| writer.flush()));
                         if CONSOLE_REPORT.load(Ordering::Relaxed) {
                             let _ = writeln!(stdout(), "{}", output);
                         }
-- 
2.43.0


From 40ac32cd80522c3e6c299b98c8c3b4239052444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 06/47] fix: exponentially weighted averages and sums decay by
 the time since the last sample, not since creation

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From 592cc5b55bc0996770d7fd4214457144aef5ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 07/47] fix: a late sample does not underflow the interval of a
 weighted average or sum

---
 trading-engine/src/feature/weighted_valuation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index f5a00d5..bda14c3 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -30,6 +30,8 @@ impl EWMA {
 
     #[inline]
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
+        // a sample stamped before the last one has no interval to decay over
+        let new_timestamp = new_timestamp.max(self.timestamp);
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
@@ -72,6 +74,8 @@ impl EWMS {
 
     #[inline]
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
+        // a sample stamped before the last one has no interval to decay over
+        let new_timestamp = new_timestamp.max(self.timestamp);
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
         self.timestamp = new_timestamp;
-- 
2.43.0


From 53f34e21bb499a9a128aadbf35c2c176d5d6abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 08/47] fix: a truncated, unterminated or non-UTF-8 payload is
 refused with an error instead of a panic while wording it

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..690b39f 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(payload),
             );
             return Err(err());
         }
-- 
2.43.0


From 04d82f7b13044acbcaceebcd2bc65954003b5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 09/47] fix: unchecked integer parsing skips the field's unused
 leading characters, as checked parsing does

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..3ee7dce 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -409,7 +409,7 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
-- 
2.43.0


From 62ba5b95454bd9e9c954517bfd565bf41449ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 10/47] fix: IFMSRPD0036 trades keep the sign and the decimal
 point of their price when decoded afresh

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From 71cc679ab4c8503bf81e9f3aeb7cacbf77979021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 11/47] fix: decoding into a reused buffer declares as many
 levels valid as were decoded

---
 trading-engine/src/data/krx/derivative_quote.rs | 2 ++
 trading-engine/src/data/krx/derivative_trade.rs | 2 ++
 trading-engine/src/data/krx/stock_quote.rs      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..14373de 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -205,6 +205,7 @@ impl IFMSRPD0034 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -452,6 +453,7 @@ impl IFMSRPD0035 {
 
         let symbol = Symbol::Isin(isin_code);
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         
         let order_counter = get_krx_base_order_counter();
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..14be581 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -277,6 +277,7 @@ impl IFMSRPD0037 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
 
         let timestamp_converter = get_krx_timestamp_converter();
         let order_counter = get_krx_base_order_counter();
@@ -616,6 +617,7 @@ impl IFMSRPD0038 {
 
         let symbol = Symbol::Isin(isin_code);
         data_buffer.id = InstId::new(symbol, Venue::KRX);
+        data_buffer.quote_level_cut = self.quote_level_cut;
 
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..978e234 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -217,6 +217,7 @@ impl IFMSRPD0002 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
@@ -454,6 +455,7 @@ impl IFMSRPD0003 {
         let isin_code = IsinCode::new(&payload[self.isin_code_slice.start..self.isin_code_slice.end])?;
         let symbol = Symbol::Isin(isin_code.clone());
         buffer.id = InstId::new(symbol, Venue::KRX);
+        buffer.quote_level_cut = self.quote_level_cut;
 
         let converter = get_krx_stock_order_converter();
         let timestamp_converter = get_krx_timestamp_converter();
-- 
2.43.0


From f5bc4a317710477ccc95f4939d2fcac7107ca842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 12/47] fix: decoding IFMSRPD0038 into a reused buffer sets the
 instrument's price and quantity converters

---
 trading-engine/src/data/krx/derivative_trade.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 14be581..87f577b 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -622,6 +622,9 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
-- 
2.43.0


From e36fb5f9f8599d02be087c7da06e2dc93c7f35b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 13/47] fix: SimpleQuotes updates take over the snapshot's
 system time

---
 trading-engine/src/feature/tick.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 5d4d7e9..b584138 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -237,6 +237,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
@@ -271,6 +272,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
-- 
2.43.0


From 1e788ffc2e37d8aaab42e31da440f308ad0cdc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 14/47] fix: SimpleQuotes::with_capacity allocates the levels
 its level_cut promises

---
 trading-engine/src/feature/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index b584138..7fb3374 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -91,8 +91,8 @@ impl SimpleQuotes {
     pub fn with_capacity(capacity: usize) -> Self {
         let converter = get_default_order_converter();
         Self {
-            bids: Vec::with_capacity(capacity),
-            asks: Vec::with_capacity(capacity),
+            bids: vec![SimpleSnapshot::default(); capacity],
+            asks: vec![SimpleSnapshot::default(); capacity],
             level_cut: capacity,
             timestamp: TimeStamp::default(),
             system_time: TimeStamp::default(),
-- 
2.43.0


From ce5908a8c14a927c3678c69c61068edab64544dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 15/47] fix: log order-flow imbalance stays finite when a level
 has no quantity

---
 trading-engine/src/feature/tick.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 7fb3374..84aff7a 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -410,7 +410,7 @@ impl SimpleQuotes {
         let current_ask = &arriving_quotes.asks[level - 1];
 
         let res = if current_ask.price > previous_ask.price {
-            if current_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 {
                 - previous_ask.quantity.ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -421,7 +421,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_ask.price == previous_ask.price {
-            if previous_ask.quantity > 0.0 {
+            if current_ask.quantity > 0.0 && previous_ask.quantity > 0.0 {
                 (current_ask.quantity / previous_ask.quantity).ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -491,7 +491,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_bid.price == previous_bid.price {
-            if previous_bid.quantity > 0.0 {
+            if current_bid.quantity > 0.0 && previous_bid.quantity > 0.0 {
                 (current_bid.quantity / previous_bid.quantity).ln()
             } else { 
                 let current_bid_clone = current_bid.clone();
@@ -501,7 +501,7 @@ impl SimpleQuotes {
                 );
                 0.0 
             }
-        } else if current_bid.quantity > 0.0 {
+        } else if previous_bid.quantity > 0.0 {
             - previous_bid.quantity.ln()
         } else { 
             let current_bid_clone = current_bid.clone();
-- 
2.43.0


From 420645993c7d2cbde784f05325489442fc2220ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 16/47] fix: a market order against the bids takes its quantity
 off the level once

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..6721c97 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,7 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
+                //level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 11a5386f77fd9adb95066f150e4e395d46efe039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 17/47] fix: a book updated from a snapshot ignores the levels
 beyond quote_level_cut

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 trading-engine/src/orderbook/mod.rs       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 6721c97..da72a14 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -82,7 +82,7 @@ impl HalfBook {
     /// So if there is a new order, it will reuse the existing orders
     pub fn update_l2_snapshot(
         &mut self, 
-        level_snapshot: &Vec<LevelSnapshot>,
+        level_snapshot: &[LevelSnapshot],
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
         let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 951deef..64a3b3c 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -119,9 +119,9 @@ impl OrderBook {
     #[inline]
     pub fn update_from_quote_snapshot(&mut self, quote: &QuoteSnapshot) -> Result<()> {
         self.check_id(quote.id)?;
-        self.asks.update_l2_snapshot(&quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
@@ -131,9 +131,9 @@ impl OrderBook {
     pub fn update_from_trade_quote_snapshot(&mut self, trade_quote: &TradeQuoteSnapshot) -> Result<()> {
         self.check_id(trade_quote.id)?;
         
-        self.asks.update_l2_snapshot(&trade_quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(trade_quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&trade_quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(trade_quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
-- 
2.43.0


From 0552b9b61e817dd5d426f97c5ef1bbe467a9be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 18/47] fix: levels without quantity in a snapshot do not
 become levels of the book

---
 trading-engine/src/orderbook/half_book.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index da72a14..3ab6ea7 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -85,7 +85,11 @@ impl HalfBook {
         level_snapshot: &[LevelSnapshot],
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
-        let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
+        // a level without quantity is the padding of a thin book, not a price in it
+        let price_vec: Vec<BookPrice> = level_snapshot.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect();
         // erase existing level where not in the snapshot
         // Collect keys to be removed
         let levels_to_remove: Vec<BookPrice> = self.levels.keys()
@@ -98,7 +102,7 @@ impl HalfBook {
             self.remove_level(level);
         }
 
-        for level in level_snapshot {
+        for level in level_snapshot.iter().filter(|x| x.book_quantity > 0) {
             let price = level.book_price;
             let quantity = level.book_quantity;
             
@@ -134,7 +138,8 @@ impl HalfBook {
         virtual_counter: &mut VirtualOrderId,
     ) -> Result<Vec<OrderEnum>> { // the order of vector is not important actually. Mostly this will be a single order
         let mut order_enum_vec = Vec::<OrderEnum>::default();
-        for level_snapshot in level_snapshot_vec {
+        // a level without quantity is the padding of a thin book, not a price in it
+        for level_snapshot in level_snapshot_vec.iter().filter(|x| x.book_quantity > 0) {
             let price = level_snapshot.book_price;
             let current_qty = level_snapshot.book_quantity;
             if let Some(level) = self.levels.get(&price) { // there is a price so remove or add
@@ -174,7 +179,10 @@ impl HalfBook {
             }
         }
 
-        let new_price_vec = level_snapshot_vec.iter().map(|x| x.book_price).collect::<Vec<BookPrice>>();
+        let new_price_vec = level_snapshot_vec.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect::<Vec<BookPrice>>();
         for (price, level) in self.levels.iter() { // there may be a disappeared price
             if !new_price_vec.contains(price) {
                 let remove_order_primitive = RemoveAnyOrder {
-- 
2.43.0


From d638c1cadc95241e2774bc01ba071dd0dd98eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 19/47] fix: an order changed to zero quantity leaves the book
 and its cache

---
 trading-engine/src/orderbook/half_book.rs | 4 ++++
 trading-engine/src/orderbook/mod.rs       | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 3ab6ea7..dd6f423 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -528,6 +528,10 @@ impl HalfBook {
         order_id: OrderId, 
         new_quantity: BookQuantity,
     ) -> Option<()> {        
+        if new_quantity == 0 { // nothing is left of the order
+            return self.cancel_order(order_id);
+        }
+
         if let Some(price) = self.cache.get(&order_id) {
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 64a3b3c..0d8659f 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -236,6 +236,9 @@ impl OrderBook {
                     order_side: OrderSide::Ask,
                 };
                 self.asks.cancel_order(order_id);
+                if limit_order.quantity == 0 { // nothing is left of the order
+                    return None;
+                }
                 self.process_limit_order(limit_order)
             }
         } else if let Some(price) = self.bids.cache.get(&order_id) {
@@ -250,6 +253,9 @@ impl OrderBook {
                     order_side: OrderSide::Bid,
                 };
                 self.bids.cancel_order(order_id);
+                if limit_order.quantity == 0 { // nothing is left of the order
+                    return None;
+                }
                 self.process_limit_order(limit_order)
             }
         } else {
-- 
2.43.0


From da3e87c0fa234de184ed593ee90548af0f58df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 20/47] fix: a half book printed up to a depth shows its best
 levels

---
 trading-engine/src/orderbook/half_book.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index dd6f423..0f6ec38 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -228,7 +228,9 @@ impl HalfBook {
         output.push_str(&"-".repeat(header.len()));
         output.push('\n');
     
-        for (price, level) in half_book.levels.iter().rev().take(depth) {
+        // the best levels are the lowest prices, printed from the highest
+        let shown: Vec<_> = half_book.levels.iter().take(depth).collect();
+        for (price, level) in shown.into_iter().rev() {
             output.push_str(&format!(
                 "{:<15} | {:<8} | {:<12}\n",
                 price, level.orders.len(), level.total_quantity
@@ -254,7 +256,9 @@ impl HalfBook {
         output.push_str(&"-".repeat(header.len()));
         output.push('\n');
     
-        for (price, level) in half_book.levels.iter().take(depth) {
+        // the best levels are the highest prices, printed from the lowest
+        let shown: Vec<_> = half_book.levels.iter().rev().take(depth).collect();
+        for (price, level) in shown.into_iter().rev() {
             output.push_str(&format!(
                 "{:>12} | {:>8} | {:>15}\n",
                 level.total_quantity, level.orders.len(), price
-- 
2.43.0


From 0d56b5f73357c20bc292681a128d7e1566ca1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 21/47] fix: dividends that went ex on or before the evaluation
 date are dropped wherever the deduction ratio is built

---
 .../src/parameters/discrete_ratio_dividend.rs | 158 ++++++------------
 1 file changed, 53 insertions(+), 105 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..619c27a 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -80,47 +80,13 @@ impl DiscreteRatioDividend {
             //let time = time_calculator.get_time_difference(&marking_offsetdatetime, date);
             //ex_dividend_times[i] = time;
         }
-        // drop data of ex-dividend date and dividend amount before the evaluation-date
         let eval_dt = evaluation_date.to_owned().borrow().get_date_clone();
-        let mut ex_dividend_dates_for_interpolator = ex_dividend_dates.clone();
-        let mut div_yields_vec = dividend_yields.to_vec();
-        let mut date_integers_for_interpolator_vec = date_integers.to_vec();
-
-        let mut i = 0;
-        let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
-        }
-
-        let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-        let mut incremental_deduction_ratio = Array1::zeros(dividend_yields_for_interpolator.len());
-        let mut temp = 1.0;
-        for (i, &yield_value) in dividend_yields_for_interpolator.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        let deduction_interpolator = if incremental_deduction_ratio.is_empty() {
-            DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?)
-        } else {
-            let right_extrapolation_value =
-                Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-            let interp = StepwiseInterpolator1D::new(
-                Array1::from_vec(date_integers_for_interpolator_vec),
-                incremental_deduction_ratio,
-                true,
-                Some(1.0),
-                right_extrapolation_value,
-            )?;
-            DividendInterpolator::Stepwise(interp)
-        };
+        let deduction_interpolator = Self::build_deduction_interpolator(
+            &ex_dividend_dates,
+            &date_integers,
+            &dividend_yields,
+            &eval_dt,
+        )?;
 
         let res = DiscreteRatioDividend {
             evaluation_date: evaluation_date.clone(),
@@ -137,6 +103,40 @@ impl DiscreteRatioDividend {
         Ok(res)
     }
 
+    /// Accumulated deduction ratio of the dividends whose ex-dividend date is after the evaluation date.
+    /// A dividend going ex at or before the evaluation date is already out of the market price.
+    fn build_deduction_interpolator(
+        ex_dividend_dates: &[OffsetDateTime],
+        date_integers: &Array1<Integer>,
+        dividend_yields: &Array1<Real>,
+        eval_dt: &OffsetDateTime,
+    ) -> Result<DividendInterpolator> {
+        let mut remaining_date_integers: Vec<Integer> = Vec::new();
+        let mut incremental_deduction_ratio: Vec<Real> = Vec::new();
+        let mut temp: Real = 1.0;
+        for (i, date) in ex_dividend_dates.iter().enumerate() {
+            if date <= eval_dt {
+                continue;
+            }
+            temp *= 1.0 - dividend_yields[i];
+            remaining_date_integers.push(date_integers[i]);
+            incremental_deduction_ratio.push(temp);
+        }
+
+        if incremental_deduction_ratio.is_empty() {
+            return Ok(DividendInterpolator::Constant(ConstantInterpolator1D::new(
+                1.0,
+            )?));
+        }
+        Ok(DividendInterpolator::Stepwise(StepwiseInterpolator1D::new(
+            Array1::from_vec(remaining_date_integers),
+            Array1::from_vec(incremental_deduction_ratio),
+            true,
+            Some(1.0),
+            Some(temp),
+        )?))
+    }
+
     pub fn get_deduction_ratio(&self, date: &OffsetDateTime) -> Result<Real> {
         let date_int = to_yyyymmdd_int(date);
         match self.deduction_interpolator {
@@ -216,76 +216,24 @@ impl DiscreteRatioDividend {
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
         // update self.dividend_yields and remake a incremental_deduction_ratio
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
         // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
+        let eval_dt = self.evaluation_date.borrow().get_date_clone();
+        self.deduction_interpolator = Self::build_deduction_interpolator(
+            &self.ex_dividend_dates,
+            &self.date_integers,
+            &self.dividend_yields,
+            &eval_dt,
+        )?;
         Ok(())
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-        let eval_dt: OffsetDateTime = date.get_date_clone();
-
-        let mut ex_dividend_dates_for_interpolator = self.ex_dividend_dates.clone();
-        let mut div_yields_vec = self.dividend_yields.to_vec();
-        let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
-
-        let mut i = 0;
-        let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
-        }
-
-        let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-        let mut incremental_deduction_ratio = Array1::zeros(dividend_yields_for_interpolator.len());
-        let mut temp = 1.0;
-        for (i, &yield_value) in dividend_yields_for_interpolator.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        if incremental_deduction_ratio.is_empty() {
-            self.deduction_interpolator =
-                DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?);
-        } else {
-            let right_extrapolation_value =
-                Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-            let deduction_interpolator = StepwiseInterpolator1D::new(
-                Array1::from_vec(date_integers_for_interpolator_vec),
-                incremental_deduction_ratio,
-                true,
-                Some(1.0),
-                right_extrapolation_value,
-            )?;
-            self.deduction_interpolator = DividendInterpolator::Stepwise(deduction_interpolator);
-        }
+        self.deduction_interpolator = Self::build_deduction_interpolator(
+            &self.ex_dividend_dates,
+            &self.date_integers,
+            &self.dividend_yields,
+            date.get_date(),
+        )?;
         Ok(())
     }
 }
-- 
2.43.0


From c9af910caf108f4a4cb7272ff73d9f8414bf9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 22/47] fix: an engine loads the borrowing curve that
 match_parameter names for an underlying

---
 quantlib/src/pricing_engines/engine.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e118ac9..9386f3b 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -241,20 +241,31 @@ impl Engine {
         // borrowing curve parameter
         let all_underlying_codes = self.instruments.get_all_underlying_codes();
         for und_code in all_underlying_codes {
-            if curve_data.contains_key(und_code) {
-                let data = curve_data.get(und_code).unwrap();
+            // the borrowing curve is the one that match_parameter gives,
+            // which is the curve of the underlying code itself if it is not mapped
+            let curve_name = self
+                .match_parameter
+                .get_borrowing_curve_map()
+                .get(und_code)
+                .unwrap_or(und_code);
+            if zero_curves.contains_key(curve_name) {
+                continue;
+            }
+            if curve_data.contains_key(curve_name) {
+                let data = curve_data.get(curve_name).unwrap();
                 let zero_curve = Rc::new(RefCell::new(ZeroCurve::new(
                     self.evaluation_date.clone(),
                     data,
-                    und_code.clone(),
-                    und_code.clone(),
+                    curve_name.clone(),
+                    curve_name.clone(),
                 )?));
-                zero_curves.insert(und_code.clone(), zero_curve.clone());
+                zero_curves.insert(curve_name.clone(), zero_curve.clone());
             } else {
                 bail!(
-                    "({}:{}) failed to get borrowing curve data for {}",
+                    "({}:{}) failed to get borrowing curve data ({}) for {}",
                     file!(),
                     line!(),
+                    curve_name,
                     und_code
                 );
             }
-- 
2.43.0


From eef13e81c507d36e59646388bcc6aed67669767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 23/47] fix: div-delta skips an underlying that has no dividend

---
 quantlib/src/pricing_engines/engine.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 9386f3b..c3fdcb3 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1552,13 +1552,14 @@ impl Engine {
             if self.instruments_in_action.is_empty() {
                 continue;
             }
+            // dividend is optional: nothing to bump if the underlying has none
+            let dividend = match self.dividends.get(div_code) {
+                Some(Some(dividend)) => dividend.clone(),
+                _ => continue,
+            };
             // bump dividend but limit the scope that is mutably borrowed
             {
-                self.dividends
-                    .get(div_code)
-                    .unwrap()
-                    .clone()
-                    .unwrap()
+                dividend
                     .borrow_mut()
                     .bump_date_interval(None, None, bump_val)?;
             }
@@ -1591,11 +1592,7 @@ impl Engine {
             }
             // put back the bump
             {
-                self.dividends
-                    .get(div_code)
-                    .unwrap()
-                    .clone()
-                    .unwrap()
+                dividend
                     .borrow_mut()
                     .bump_date_interval(None, None, -bump_val)?;
             }
-- 
2.43.0


From 857c8ee49b9aa4869adb7945ff54e1e80f09a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 24/47] fix: the vega matrix of an underlying is not recorded
 for instruments of another underlying

---
 quantlib/src/pricing_engines/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index c3fdcb3..abc40bb 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1384,7 +1384,7 @@ impl Engine {
         let mut npv: Real;
         let mut npv_up: Real;
         // inst code (String) -> Array2<Real>
-        let mut single_vega_matrix: HashMap<String, Array2<Real>> = HashMap::new();
+        let mut single_vega_matrix: HashMap<String, Array2<Real>>;
         let exclude_type = vec!["Cash", "Stock", "Futures"];
         let exclude_type_clone = exclude_type.clone();
 
@@ -1407,6 +1407,7 @@ impl Engine {
                 .instruments
                 .get_all_inst_code_clone(Some(&self.instruments_in_action));
 
+            single_vega_matrix = HashMap::new();
             for inst_code in inst_codes_in_action.iter() {
                 let init = Array2::zeros((calc_times.len(), spot_moneyness.len()));
                 single_vega_matrix.insert(inst_code.clone(), init);
-- 
2.43.0


From eda2fad284bff70246f25f7836e0faa7db4dc56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 25/47] fix: expected coupons paid at the same time add up

---
 quantlib/src/pricing_engines/npv_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..50759ea 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,7 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From 7950376d6cfd3f1c3d3c84351a62b8d465e7ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 26/47] fix: the only period of a schedule ends at maturity

---
 quantlib/src/instruments/schedule.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..3d3f855 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -166,13 +166,19 @@ pub fn build_schedule(
     for i in 0..schedule_length {
         if i == 0 {
             calc_start_date = *effective_date;
-            calc_end_date = calc_start_date_vec[i + 1];
             fixing_date = calendar.adjust(
                 &(calc_start_date - Duration::days(fixing_gap_days)),
                 &BusinessDayConvention::Preceding,
             )?;
-            payment_date =
-                calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            if schedule_length == 1 {
+                // the only period is also the last one
+                calc_end_date = *maturity;
+                payment_date = *maturity;
+            } else {
+                calc_end_date = calc_start_date_vec[i + 1];
+                payment_date =
+                    calendar.adjust(&(calc_end_date + Duration::days(payment_gap_days)), conv)?;
+            }
         } else if i == schedule_length - 1 {
             calc_start_date = calc_start_date_vec[i];
             calc_end_date = *maturity;
-- 
2.43.0


From b505149b5a73793bb586aff6c394b3d82a628a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 27/47] fix: the rho structure of a floating leg is not cut
 short at its maturity

---
 quantlib/src/pricing_engines/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index abc40bb..25abbd9 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1824,7 +1824,12 @@ impl Engine {
                     &calc_dates[i],
                     Some(exclude_type_clone.clone()),
                 );
-                if inst_over_bump_end.is_empty() {
+                // forward rates of a floating leg reach beyond the maturity by the tenor of the index
+                let has_forward_rate = self
+                    .instruments_in_action
+                    .iter()
+                    .any(|inst| matches!(inst.get_rate_index(), Ok(Some(_))));
+                if inst_over_bump_end.is_empty() && !has_forward_rate {
                     break;
                 }
             }
-- 
2.43.0


From 8ef51eb9d0f7c2c17cad66015e7610fd6a47f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 28/47] fix: the time to a date in an earlier year is negative

---
 quantlib/src/time/calendar_trait.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..c8b2d9a 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -291,6 +291,9 @@ pub trait CalendarTrait {
     /// at the second, calculate the time from the start of the end_date to the end_date as Act366 fasion
     /// then, sum up the two times
     fn get_time_difference(&self, start_date: &OffsetDateTime, end_date: &OffsetDateTime) -> Time {
+        if end_date < start_date {
+            return -self.get_time_difference(end_date, start_date);
+        }
         //let midnight_last_day_of_year_start = OffsetDateTime::new_in_offset(last_day_of_year_start, time::Time::MIDNIGHT, start_date_offset);
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
-- 
2.43.0


From 59d8cee193ce8c740c5272834077ec5688fed55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 29/47] fix: the legs of an interest rate swap are discounted
 on its rate index curve

---
 quantlib/src/pricing_engines/pricer_factory.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 5bd8205..49ce61d 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -2,6 +2,7 @@ use crate::currency::FxCode;
 use crate::enums::VanillaOptionCalculationMethod;
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
+use crate::instruments::plain_swap::PlainSwapType;
 use crate::parameters::{market_price::MarketPrice, past_price::DailyClosePrice};
 use crate::parameters::{
     quanto::Quanto, rate_index::RateIndex, volatility::Volatility, zero_curve::ZeroCurve,
@@ -350,16 +351,24 @@ impl PricerFactory {
     }
 
     fn get_plain_swap_pricer(&self, instrument: &Rc<Instrument>) -> Result<Pricer> {
-        let fixed_leg_discount_curve_name = self.match_parameter.get_crs_curve_name(instrument)?;
+        // IRS (or OIS) uses rate index forward curve as discount curve of both legs
+        let is_irs = instrument.get_specific_plain_swap_type()? == PlainSwapType::IRS;
+        let fixed_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self.match_parameter.get_crs_curve_name(instrument)?,
+        };
         let fixed_leg_discount_curve = self.zero_curves.get(fixed_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get fixed leg discount curve of {}.\nself.zero_curves does not have {}",
                 file!(), line!(), instrument.get_code(), fixed_leg_discount_curve_name,
             ))?.clone();
 
-        let floating_leg_discount_curve_name = self
-            .match_parameter
-            .get_floating_crs_curve_name(instrument)?;
+        let floating_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self
+                .match_parameter
+                .get_floating_crs_curve_name(instrument)?,
+        };
         let floating_leg_discount_curve = self.zero_curves.get(floating_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get floating leg discount curve of {}.\nself.zero_curves does not have {}",
-- 
2.43.0


From 4b6773d29f9b68709ce5a06ed8857819db778519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 30/47] fix: floating coupons keep their notional after the
 effective date

---
 quantlib/src/instruments/plain_swap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..d80e373 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,11 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
+
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From f31c722a934ba9a53c3912b647cef3998e22f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 31/47] fix: a treasury bond futures looks up its borrowing
 curve, not a collateral curve it does not have

---
 quantlib/src/pricing_engines/pricer_factory.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 49ce61d..8b10ac7 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -288,23 +288,21 @@ impl PricerFactory {
             )
             })?
             .clone();
-        let collateral_curve_name = self
-            .match_parameter
-            .get_collateral_curve_names(instrument)?[0];
-        let collateral_curve = self
+        let borrowing_curve_name = self.match_parameter.get_borrowing_curve_names(instrument)?[0];
+        let borrowing_curve = self
             .zero_curves
-            .get(collateral_curve_name)
+            .get(borrowing_curve_name)
             .ok_or_else(|| {
                 anyhow::anyhow!(
-                "({}:{}) failed to get collateral curve of {}.\nself.zero_curves does not have {}",
-                file!(), line!(), instrument.get_code(), collateral_curve_name,
+                "({}:{}) failed to get borrowing curve of {}.\nself.zero_curves does not have {}",
+                file!(), line!(), instrument.get_code(), borrowing_curve_name,
             )
             })?
             .clone();
         let core = KtbfPricer::new(
             self.evaluation_date.clone(),
             discount_curve,
-            collateral_curve,
+            borrowing_curve,
         );
 
         Ok(Pricer::KtbfPricer(core))
-- 
2.43.0


From 4a75d257ab8f7bfe5543dba9a47bb9fb1892e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 32/47] fix: a daily settled option is priced without
 discounting

---
 .../src/pricing_engines/pricer_factory.rs     | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 8b10ac7..be6d131 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -1,5 +1,5 @@
 use crate::currency::FxCode;
-use crate::enums::VanillaOptionCalculationMethod;
+use crate::enums::{OptionDailySettlementType, VanillaOptionCalculationMethod};
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
 use crate::instruments::plain_swap::PlainSwapType;
@@ -200,17 +200,23 @@ impl PricerFactory {
                 "({}:{}) failed to get volatility of {}.\nself.equity_volatilities does not have {}",
                 file!(), line!(), instrument.get_code(), instrument.get_underlying_codes()[0],
             ))?.clone();
-        let discount_curve_name = self.match_parameter.get_discount_curve_name(instrument)?;
-        let discount_curve = self
-            .zero_curves
-            .get(discount_curve_name)
-            .ok_or_else(|| {
-                anyhow::anyhow!(
-                "({}:{}) failed to get discount curve of {}.\nself.zero_curves does not have {}",
-                file!(), line!(), instrument.get_code(), discount_curve_name,
-            )
-            })?
-            .clone();
+        let discount_curve = match instrument.get_option_daily_settlement_type()? {
+            // a daily settled option does not need to be discounted
+            OptionDailySettlementType::Settled => Rc::new(RefCell::new(ZeroCurve::dummy_curve()?)),
+            OptionDailySettlementType::NotSettled => {
+                let discount_curve_name =
+                    self.match_parameter.get_discount_curve_name(instrument)?;
+                self.zero_curves
+                    .get(discount_curve_name)
+                    .ok_or_else(|| {
+                        anyhow::anyhow!(
+                        "({}:{}) failed to get discount curve of {}.\nself.zero_curves does not have {}",
+                        file!(), line!(), instrument.get_code(), discount_curve_name,
+                    )
+                    })?
+                    .clone()
+            }
+        };
 
         let collateral_curve_name = self
             .match_parameter
-- 
2.43.0


From f4bc339a8abf00fcbd43fddc560c749b850e34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 33/47] fix: a 30/360 period from one month's 31st to another's
 is not 30 days short

---
 quantlib/src/time/calendar_trait.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index c8b2d9a..83b7bc5 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -236,12 +236,8 @@ pub trait CalendarTrait {
                 days += 360 * (year_upto - year_from);
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
-                if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
+                if day_from == 31 && day_upto != 31 {
+                    days += 1;
                 }
                 days as Time / 360.0
             }
-- 
2.43.0


From 284c23fb179c6f3a52a402c76d47ffc8c49d2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:42 +0000
Subject: [PATCH 34/47] fix: going back more than a year by months arrives in
 the right year

---
 quantlib/src/utils/string_arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..8ed18a0 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -195,7 +195,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
                 let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
-- 
2.43.0


From 08b0671ee39dc4c3f0b2dd9cdc17b989e89f052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 35/47] fix: an option at the money at its maturity was priced
 as NaN

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 6ca92d0..88b3524 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -95,6 +95,15 @@ impl PricerTrait for OptionAnalyticPricer {
 
         let dsc = self.discount_curve.borrow().get_discount_factor(t)?;
 
+        // nothing is uncertain any more (the option matures now, or the volatility is zero):
+        // at the money, d1 would be 0 / 0
+        if total_deviation == 0.0 {
+            return match option_type {
+                OptionType::Call => Ok(dsc * (fwd - strike).max(0.0)),
+                OptionType::Put => Ok(dsc * (strike - fwd).max(0.0)),
+            };
+        }
+
         let d1 = (-y + total_variance / 2.0 - quanto_adjustment) / total_deviation;
         let d2 = d1 - total_deviation;
 
-- 
2.43.0


From 9ee24a38c26f060cf24c8b2e77b191ddb8139c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 36/47] fix: a bounded counter ending at its type's maximum
 does not start again after exhaustion

---
 trading-engine/src/utils/counter.rs | 74 +++++++++++++++++------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/trading-engine/src/utils/counter.rs b/trading-engine/src/utils/counter.rs
index 9ee7d5b..aac07b7 100644
--- a/trading-engine/src/utils/counter.rs
+++ b/trading-engine/src/utils/counter.rs
@@ -5,7 +5,7 @@ use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 pub struct CounterUsize {
     start: usize,
     end: usize,
-    counter: AtomicUsize,
+    drawn: AtomicUsize,
 }
 
 impl CounterUsize {
@@ -13,24 +13,31 @@ impl CounterUsize {
         CounterUsize {
             start,
             end,
-            counter: AtomicUsize::new(start),
+            drawn: AtomicUsize::new(0),
         }
     }
 
     pub fn next(&self) -> Result<usize> {
-        let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
-            let lazy_error = || {
-                anyhow!(
-                    "CounterUsize: counter overflow, start: {}, end: {}",
-                    self.start,
-                    self.end
-                )
-            };
-            Err(lazy_error())
-        } else {
-            Ok(res)
-        }
+        let lazy_error = || {
+            anyhow!(
+                "CounterUsize: counter overflow, start: {}, end: {}",
+                self.start,
+                self.end
+            )
+        };
+        let room = self.end.checked_sub(self.start).ok_or_else(lazy_error)?;
+        // an exhausted counter stays where it is, so that it can not wrap around and start again
+        let drawn = self
+            .drawn
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |drawn| {
+                if drawn > room {
+                    None
+                } else {
+                    drawn.checked_add(1)
+                }
+            })
+            .map_err(|_| lazy_error())?;
+        Ok(self.start + drawn)
     }
 }
 
@@ -38,7 +45,7 @@ impl CounterUsize {
 pub struct CounterU64 {
     start: u64,
     end: u64,
-    counter: AtomicU64,
+    drawn: AtomicU64,
 }
 
 impl CounterU64 {
@@ -46,24 +53,31 @@ impl CounterU64 {
         CounterU64 {
             start,
             end,
-            counter: AtomicU64::new(start),
+            drawn: AtomicU64::new(0),
         }
     }
 
     pub fn next(&self) -> Result<u64> {
-        let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
-            let lazy_error = || {
-                anyhow!(
-                    "CounterU64: counter overflow, start: {}, end: {}",
-                    self.start,
-                    self.end
-                )
-            };
-            Err(lazy_error())
-        } else {
-            Ok(res)
-        }
+        let lazy_error = || {
+            anyhow!(
+                "CounterU64: counter overflow, start: {}, end: {}",
+                self.start,
+                self.end
+            )
+        };
+        let room = self.end.checked_sub(self.start).ok_or_else(lazy_error)?;
+        // an exhausted counter stays where it is, so that it can not wrap around and start again
+        let drawn = self
+            .drawn
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |drawn| {
+                if drawn > room {
+                    None
+                } else {
+                    drawn.checked_add(1)
+                }
+            })
+            .map_err(|_| lazy_error())?;
+        Ok(self.start + drawn)
     }
 }
 
-- 
2.43.0


From c6971814ed84561a96f5f21d730ffa0ec8acf376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 37/47] fix: a log record that cannot be serialised or
 evaluated does not stop the logger

---
 trading-engine/src/logger.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 72cc002..fe185b1 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -9,6 +9,7 @@ use once_cell::sync::Lazy;
 use std::{
     fs::{File, OpenOptions},
     io::{stderr, stdout, BufWriter, Write},
+    panic::{catch_unwind, AssertUnwindSafe},
     path::PathBuf,
 };
 use std::{
@@ -40,7 +41,7 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
         while let Ok(msg) = receiver.recv() {
             match msg {
                 LogMessage::LazyMessage(lazy_message) => {
-                    let message = lazy_message.eval();
+                    let message = eval_or_report(lazy_message);
                     let new_msg_length = message.len();
                     let buffer_size = message_queue.len();
                     let timestamp = get_unix_nano();
@@ -62,7 +63,7 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                     }
                 }
                 LogMessage::FlushingMessage(lazy_message) => {
-                    let message = lazy_message.eval();
+                    let message = eval_or_report(lazy_message);
                     message_queue.push(message);
 
                     if let Some(ref mut writer) = writer {
@@ -128,6 +129,14 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
     sender
 });
 
+/// A record whose content panics costs itself, not the logger.
+fn eval_or_report(lazy_message: LazyMessage) -> String {
+    catch_unwind(AssertUnwindSafe(|| lazy_message.eval())).unwrap_or_else(|_| {
+        let _ = writeln!(stderr(), "logger: a record could not be evaluated");
+        String::new()
+    })
+}
+
 /// A failing disk or console costs log records, not the logger.
 fn report_io_error(result: std::io::Result<()>) {
     if let Err(e) = result {
@@ -307,7 +316,9 @@ macro_rules! log_fn_json {
             let func = move || {
                 let json_obj = $crate::serde_json::json!({
                     $(
-                        stringify!($key): $value,
+                        stringify!($key): $crate::serde_json::to_value(&$value).unwrap_or_else(|e| {
+                            $crate::serde_json::json!({ "error": format!("serialization error: {}", e) })
+                        }),
                     )+
                 });
                 let timezone = $crate::TIMEZONE.load(std::sync::atomic::Ordering::Relaxed);
@@ -409,7 +420,9 @@ macro_rules! flushing_log_fn_json {
             let func = move || {
                 let json_obj = $crate::serde_json::json!({
                     $(
-                        stringify!($key): $value,
+                        stringify!($key): $crate::serde_json::to_value(&$value).unwrap_or_else(|e| {
+                            $crate::serde_json::json!({ "error": format!("serialization error: {}", e) })
+                        }),
                     )+
                 });
                 let timezone = $crate::TIMEZONE.load(std::sync::atomic::Ordering::Relaxed);
-- 
2.43.0


From 0c0fb849fd1931d6f2db169de2fb8b81d21f1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 38/47] fix: number converters read back what they write

---
 trading-engine/src/utils/numeric_converter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 3ee7dce..3217ec3 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -19,7 +19,7 @@ use crate::types::timestamp::{
     FIFTEEN_HOURS_NANOSCALE,
 };
 use anyhow::{anyhow, Result};
-use serde::{de::Deserializer, Deserialize, Serialize};
+use serde::{de::Deserializer, Deserialize, Serialize, Serializer};
 use std::ptr::read_unaligned;
 
 /// decimal_point_length includes the decimal point itself
@@ -291,7 +291,7 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
 
-#[derive(Debug, Serialize)]
+#[derive(Debug)]
 pub struct IntegerConverter {
     numcfg: NumReprCfg,
     is_signed: bool,
@@ -300,10 +300,19 @@ pub struct IntegerConverter {
     decimal_point_length: usize,
     decimal_number_point_length_i32: i32,
     parsing_length: usize,
-    #[serde(skip)]
     parser: fn(&[u8], usize, usize) -> u64,
 }
 
+/// The configuration is all a converter is made from, so it is what is written and read back.
+impl Serialize for IntegerConverter {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        self.numcfg.serialize(serializer)
+    }
+}
+
 impl<'de> Deserialize<'de> for IntegerConverter {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
-- 
2.43.0


From 77c5cc15c7e62ad1e8de64aca18944ffb477915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 39/47] fix: an instrument list can be written as JSON

---
 trading-engine/src/types/inst_info.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/trading-engine/src/types/inst_info.rs b/trading-engine/src/types/inst_info.rs
index 3d906cf..2c73cd6 100644
--- a/trading-engine/src/types/inst_info.rs
+++ b/trading-engine/src/types/inst_info.rs
@@ -35,6 +35,7 @@ impl BaseInstInfo {
 
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
 pub struct BaseInstMap {
+    #[serde(with = "map_as_pairs")]
     pub map: FxHashMap<InstId, BaseInstInfo>,    
 }
 
@@ -53,3 +54,22 @@ impl BaseInstMap {
         self.map.get(&inst_id)
     }
 }
+
+/// JSON object keys must be strings, so a map keyed by ids is written as a list of pairs.
+mod map_as_pairs {
+    use super::*;
+    use serde::{Deserializer, Serializer};
+
+    pub fn serialize<S: Serializer>(
+        map: &FxHashMap<InstId, BaseInstInfo>,
+        serializer: S,
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<FxHashMap<InstId, BaseInstInfo>, D::Error> {
+        Ok(Vec::deserialize(deserializer)?.into_iter().collect())
+    }
+}
-- 
2.43.0


From 35f777816d7264ba4d9338e0591a9290212b154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 40/47] fix: a currency pair reads back from the text it is
 written as

---
 quantlib/src/currency.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..50fdaf1 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +173,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +189,28 @@ impl Serialize for FxCode {
     }
 }
 
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let s = String::deserialize(deserializer)?;
+        let known = |code: &str| {
+            let currency = Currency::from(code);
+            if currency.as_str() == code {
+                Ok(currency)
+            } else {
+                Err(D::Error::custom(format!("unknown currency {} in the fx code {}", code, s)))
+            }
+        };
+        let (currency1, currency2) = s
+            .split_once('_')
+            .ok_or_else(|| D::Error::custom(format!("invalid fx code: {}", s)))?;
+
+        Ok(FxCode::new(known(currency1)?, known(currency2)?))
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0


From 0255a58ab4a7ef807b5f7c7057429c99ece7c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 41/47] fix: fixings, closing prices and bond curve assignments
 can be written as JSON

---
 quantlib/src/data/daily_value_data.rs         |  1 +
 quantlib/src/parameters/past_price.rs         |  1 +
 .../src/pricing_engines/match_parameter.rs    |  1 +
 quantlib/src/utils/map_as_pairs.rs            | 23 +++++++++++++++++++
 quantlib/src/utils/mod.rs                     |  1 +
 5 files changed, 27 insertions(+)
 create mode 100644 quantlib/src/utils/map_as_pairs.rs

diff --git a/quantlib/src/data/daily_value_data.rs b/quantlib/src/data/daily_value_data.rs
index bfd6d0e..28d1105 100644
--- a/quantlib/src/data/daily_value_data.rs
+++ b/quantlib/src/data/daily_value_data.rs
@@ -7,6 +7,7 @@ use time::{Date, Time, UtcOffset};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct DailyValueData {
+    #[serde(with = "crate::utils::map_as_pairs")]
     value: HashMap<Date, Real>,
     close_time: Time,
     utc_offset: UtcOffset,
diff --git a/quantlib/src/parameters/past_price.rs b/quantlib/src/parameters/past_price.rs
index c526bce..8513067 100644
--- a/quantlib/src/parameters/past_price.rs
+++ b/quantlib/src/parameters/past_price.rs
@@ -11,6 +11,7 @@ use time::{Date, OffsetDateTime, Time, UtcOffset};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct DailyClosePrice {
+    #[serde(with = "crate::utils::map_as_pairs")]
     value: HashMap<Date, Real>,
     close_time: Time,
     utc_offset: UtcOffset,
diff --git a/quantlib/src/pricing_engines/match_parameter.rs b/quantlib/src/pricing_engines/match_parameter.rs
index 69fba71..97758aa 100644
--- a/quantlib/src/pricing_engines/match_parameter.rs
+++ b/quantlib/src/pricing_engines/match_parameter.rs
@@ -24,6 +24,7 @@ pub struct MatchParameter {
     //  issuer_type: IssuerType,
     //  credit_rating: CreditRating,
     //  currency: Currency) -> String
+    #[serde(with = "crate::utils::map_as_pairs")]
     bond_discount_curve_map: HashMap<(String, IssuerType, CreditRating, Currency), String>,
     // index code: RateIndexCode -> String
     rate_index_forward_curve_map: HashMap<String, String>,
diff --git a/quantlib/src/utils/map_as_pairs.rs b/quantlib/src/utils/map_as_pairs.rs
new file mode 100644
index 0000000..78b72e6
--- /dev/null
+++ b/quantlib/src/utils/map_as_pairs.rs
@@ -0,0 +1,23 @@
+//! Serializes a map as a list of (key, value) pairs:
+//! JSON object keys must be strings, so a map keyed by dates or tuples cannot be written as an object.
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use std::collections::HashMap;
+use std::hash::Hash;
+
+pub fn serialize<K, V, S>(map: &HashMap<K, V>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    K: Serialize,
+    V: Serialize,
+    S: Serializer,
+{
+    serializer.collect_seq(map)
+}
+
+pub fn deserialize<'de, K, V, D>(deserializer: D) -> Result<HashMap<K, V>, D::Error>
+where
+    K: Deserialize<'de> + Eq + Hash,
+    V: Deserialize<'de>,
+    D: Deserializer<'de>,
+{
+    Ok(Vec::<(K, V)>::deserialize(deserializer)?.into_iter().collect())
+}
diff --git a/quantlib/src/utils/mod.rs b/quantlib/src/utils/mod.rs
index 919ab4d..fa9b281 100644
--- a/quantlib/src/utils/mod.rs
+++ b/quantlib/src/utils/mod.rs
@@ -2,6 +2,7 @@ pub mod distribute_value;
 pub mod find_index;
 pub mod find_index_ndarray;
 pub mod make_fx;
+pub mod map_as_pairs;
 pub mod number_format;
 pub mod string_arithmetic;
 pub mod tracing_timer;
-- 
2.43.0


From e603a27f76ff31d40e922945b2e483a671360292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 42/47] fix: a forward rate over an empty period was NaN

---
 quantlib/src/parameters/zero_curve.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..034a96b 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,19 +334,13 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
-                let tau = t2 - t1;
-
-                let disc: Real = if tau.abs() > 1e-6 {
-                    match self.get_discount_factor_between_times(t1, t2) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
+                // over (almost) no time it is the rate of the next day
+                let (t2, tau) = if t2 - t1 > 1e-6 {
+                    (t2, t2 - t1)
                 } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
-                        Ok(d) => d,
-                        Err(e) => return Err(e),
-                    }
+                    (t1 + 0.002737, 0.002737)
                 };
+                let disc: Real = self.get_discount_factor_between_times(t1, t2)?;
 
                 match compounding {
                     Compounding::Simple => Ok((1.0 - disc) / tau),
-- 
2.43.0


From 1baa78a57529ef35d770ca9aea8b671735287326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 43/47] fix: a cleared level kept its total quantity

---
 trading-engine/src/orderbook/level.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading-engine/src/orderbook/level.rs b/trading-engine/src/orderbook/level.rs
index 0661932..470bf81 100644
--- a/trading-engine/src/orderbook/level.rs
+++ b/trading-engine/src/orderbook/level.rs
@@ -116,6 +116,7 @@ impl Level {
     #[inline]
     pub fn clear(&mut self) {
         self.orders.clear();
+        self.total_quantity = 0;
     }
 
     /// Returns (all_traded_id, remaining quantity, total quantity remained in the level)
-- 
2.43.0


From 432f6f920b749e1d00162d5a0866406c0a23bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 44/47] fix: a refused bump of a volatility surface was kept

---
 .../parameters/volatilities/local_volatility_surface.rs    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/parameters/volatilities/local_volatility_surface.rs b/quantlib/src/parameters/volatilities/local_volatility_surface.rs
index b7c13fb..d718686 100644
--- a/quantlib/src/parameters/volatilities/local_volatility_surface.rs
+++ b/quantlib/src/parameters/volatilities/local_volatility_surface.rs
@@ -443,6 +443,7 @@ impl VolatilityTrait for LocalVolatilitySurface {
         let left_spot_moneyness = left_spot_moneyness.unwrap_or(Real::MIN + 10.0);
         let right_spot_moneyness = right_spot_moneyness.unwrap_or(Real::MAX - 10.0);
 
+        let before = self.interpolated_imvol.clone();
         let eps = 1.0e-4;
         let time_length = self.imvol_maturity_times.len();
         let spot_moneyness_length = self.imvol_spot_moneyness.len();
@@ -459,7 +460,11 @@ impl VolatilityTrait for LocalVolatilitySurface {
                 self.interpolated_imvol[[i, j]] += bump;
             }
         }
-        self.build()?;
+        if let Err(e) = self.build() {
+            // a bump that is refused leaves the volatility as it was
+            self.interpolated_imvol = before;
+            return Err(e);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 693b579d0f9e22f4a9219151cc47aad43dcb4129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 45/47] fix: the logger died when it could not be given a core

---
 trading-engine/src/logger.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index fe185b1..777d48c 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -108,11 +108,12 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                     }
                 }
                 LogMessage::SetCore => {
-                    let core_ids = core_affinity::get_core_ids().unwrap();
+                    let core_ids = core_affinity::get_core_ids().unwrap_or_default();
                     if let Some(last_core_id) = core_ids.first() {
                         core_affinity::set_for_current(*last_core_id);
                     } else {
-                        panic!("No core available for logger thread")
+                        // keep on without a core of its own
+                        let _ = writeln!(stderr(), "logger: no core available for the logger thread");
                     }
                 }
                 LogMessage::Close => {
-- 
2.43.0


From 7f22bfd642752ec73576699ab70059ba0aec8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 46/47] fix: a logger thread that could not be started took its
 caller down

---
 trading-engine/src/logger.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 777d48c..5b57454 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -36,7 +36,7 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
     let mut message_queue: Vec<String> = Vec::with_capacity(LOG_MESSAGE_BUFFER_SIZE);
     let mut last_flush_time = get_unix_nano();
 
-    *LOGGER_HANDLER.lock().unwrap() = Some(thread::spawn(move || {
+    let spawned = thread::Builder::new().spawn(move || {
         let mut writer: Option<BufWriter<File>> = None;
         while let Ok(msg) = receiver.recv() {
             match msg {
@@ -126,7 +126,12 @@ pub static LOG_SENDER: Lazy<Sender<LogMessage>> = Lazy::new(|| {
                 }
             }
         }
-    }));
+    });
+    match spawned {
+        Ok(handler) => *LOGGER_HANDLER.lock().unwrap() = Some(handler),
+        // without its thread the logger is as good as finalized
+        Err(e) => report_io_error(Err(e)),
+    }
     sender
 });
 
-- 
2.43.0


From 443b27b159f6d252e134a13b40bdeb21033225fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:25 +0000
Subject: [PATCH 47/47] fix: a ticker that is not valid UTF-8 is refused, as
 its text is handed out unchecked

---
 trading-engine/src/types/id/ticker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 2b95568..3868041 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -30,6 +30,10 @@ impl Ticker {
             let err = || anyhow!("Ticker(={:?}) length should be less than 32", from_utf8(bytes));
             return Err(err());
         }
+        if let Err(e) = from_utf8(bytes) {
+            let err = || anyhow!("Ticker(={:?}) is not valid UTF-8: {}", bytes, e);
+            return Err(err());
+        }
         let mut ticker = [0u8; 32];
         ticker[..bytes.len()].copy_from_slice(bytes);
         Ok(Ticker { ticker })
-- 
2.43.0

