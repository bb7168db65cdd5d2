From 23536fc490eafbc19a5191c78c213c22c679af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:30 +0000
Subject: [PATCH 01/26] fix: write whole packets, a short write of the socket
 lost the tail

---
 src/packet_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..5b08041 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -35,7 +35,7 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From 6a1a2498ab774e695a350bc345d32c2875bd2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:24 +0000
Subject: [PATCH 02/26] fix: Uuid::parse rejects wrong lengths and normalises
 the text form

---
 src/providers/mysql/gtid/uuid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..53c12e0 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -24,10 +24,13 @@ impl Uuid {
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
-        let mut data = [0u8; 16];
-        (0..16).for_each(|i| data[i] = vec[i]);
+        let data: [u8; 16] = match vec.try_into() {
+            Ok(x) => x,
+            Err(_) => return Err(Error::String(format!("Invalid uuid format {}", uuid))),
+        };
 
-        Ok(Self { data, uuid })
+        // The text form is a key, so it has to be the same for every spelling of the uuid
+        Ok(Self::new(data))
     }
 }
 
-- 
2.43.0


From d098c696422ba67dc10558553b8bc52731e89cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:25 +0000
Subject: [PATCH 03/26] fix: GtidList::parse reports malformed gtids instead of
 panicking

---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From b212353e9566c20ae9073bd4358575238c3b8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:26 +0000
Subject: [PATCH 04/26] fix: adding the last transaction id to a uuid set does
 not overflow

---
 src/providers/mysql/gtid/uuid_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..ffd0a55 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -37,10 +37,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if gtid.transaction_id.checked_add(1) == Some(interval.start) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.checked_add(1) == Some(gtid.transaction_id) {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
@@ -88,7 +88,7 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
+        if left.end.checked_add(1) == Some(right_start) {
             left.end = right_end;
             intervals.remove(index + 1);
         } else {
-- 
2.43.0


From 3a6f44c50b2173e1777b231b1212b8e623bfe789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:27 +0000
Subject: [PATCH 05/26] fix: parsed gtid sets are the union of all listed
 intervals

---
 src/providers/mysql/gtid/gtid_set.rs | 6 +++++-
 src/providers/mysql/gtid/uuid_set.rs | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..f47b005 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,7 +32,7 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
@@ -50,6 +50,10 @@ impl GtidSet {
                 };
                 intervals.push(interval);
             }
+            // The same uuid can be listed several times
+            if let Some(uuid_set) = result.remove(&source_id.uuid) {
+                intervals.extend(uuid_set.intervals);
+            }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index ffd0a55..8089b43 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end.checked_add(1) == Some(right_start) {
-            left.end = right_end;
+        if right_start <= left.end || left.end.checked_add(1) == Some(right_start) {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From 4660ec44bbfb0ea90bf385907fdf1ebbec1b50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:28 +0000
Subject: [PATCH 06/26] fix: too short events are reported instead of panicking

---
 src/binlog_reader.rs       | 5 ++++-
 src/events/event_parser.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..39579b5 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,7 +42,10 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
-        let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
+        let payload_length = match (header.event_length as usize).checked_sub(EVENT_HEADER_SIZE) {
+            Some(x) => x,
+            None => return Err(Error::String("Invalid event length".to_string())),
+        };
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
             let mut vec: Vec<u8> = vec![0; payload_length];
 
diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..a85d0b2 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -46,7 +46,10 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
-            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
+            ChecksumType::Crc32 => match slice.len().checked_sub(4) {
+                Some(length) => Cursor::new(&slice[0..length]),
+                None => return Err(Error::String("Event checksum is missing".to_string())),
+            },
         };
 
         let binlog_event: BinlogEvent = match EventType::from_code(header.event_type) {
-- 
2.43.0


From 4145327116a2c6e08009dead860e4bdfeebef045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 07/26] fix: an undecodable event does not silently end reading
 a binlog file

---
 src/binlog_reader.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 39579b5..74ea7b7 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -5,7 +5,7 @@ use crate::events::event_header::EventHeader;
 use crate::events::event_parser::EventParser;
 use constants::EVENT_HEADER_SIZE;
 use std::fs::File;
-use std::io::{ErrorKind, Read};
+use std::io::{self, ErrorKind, Read};
 
 const MAGIC_NUMBER: [u8; constants::FIRST_EVENT_POSITION] = [0xfe, 0x62, 0x69, 0x6e];
 
@@ -50,18 +50,34 @@ impl BinlogReader {
             let mut vec: Vec<u8> = vec![0; payload_length];
 
             self.stream.read_exact(&mut vec)?;
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
+            let binlog_event = self
+                .parser
+                .parse_event(&header, &vec)
+                .map_err(incomplete_event)?;
             Ok((header, binlog_event))
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
+            let binlog_event = self
+                .parser
+                .parse_event(&header, slice)
+                .map_err(incomplete_event)?;
             Ok((header, binlog_event))
         }
     }
 }
 
+/// Only the end of the file ends the iteration, not an event with a too short body.
+fn incomplete_event(error: Error) -> Error {
+    match error {
+        Error::IoError(x) if x.kind() == ErrorKind::UnexpectedEof => {
+            Error::IoError(io::Error::new(ErrorKind::InvalidData, x))
+        }
+        x => x,
+    }
+}
+
 impl Iterator for BinlogReader {
     type Item = Result<(EventHeader, BinlogEvent), Error>;
 
-- 
2.43.0


From f7771181ea162a689e9424642ff5b03456e8c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 08/26] fix: rows not matching their table map are reported
 instead of panicking or looping

---
 src/events/row_events/row_parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..4437738 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -38,7 +38,9 @@ pub fn parse_row_data_list(
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        let position = cursor.position();
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
+        check_row_size(cursor, position)?;
     }
     Ok(rows)
 }
@@ -59,6 +61,7 @@ pub fn parse_update_row_data_list(
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        let position = cursor.position();
         let row_before_update = parse_row(
             cursor,
             table,
@@ -72,6 +75,7 @@ pub fn parse_update_row_data_list(
             cells_included_after_update,
         )?;
         rows.push(UpdateRowData::new(row_before_update, row_after_update));
+        check_row_size(cursor, position)?;
     }
     Ok(rows)
 }
@@ -100,6 +104,12 @@ pub fn parse_row(
     columns_present: &Vec<bool>,
     cells_included: usize,
 ) -> Result<RowData, Error> {
+    if columns_present.len() != table_map.column_types.len() {
+        return Err(Error::String(
+            "Row event has a different number of columns than its TableMapEvent".to_string(),
+        ));
+    }
+
     let mut row = Vec::with_capacity(table_map.column_types.len());
     let null_bitmap = read_bitmap_little_endian(cursor, cells_included)?;
 
@@ -183,6 +193,14 @@ fn parse_cell(
     Ok(value)
 }
 
+/// A row without data would be read endlessly.
+fn check_row_size(cursor: &Cursor<&[u8]>, row_position: u64) -> Result<(), Error> {
+    if cursor.position() == row_position {
+        return Err(Error::String("Row event has an empty row".to_string()));
+    }
+    Ok(())
+}
+
 /// Gets number of bits set in a bitmap.
 fn get_bits_number(bitmap: &Vec<bool>) -> usize {
     bitmap.iter().filter(|&x| *x == true).count()
-- 
2.43.0


From 7adb53f0bb57cd3a2cd0956cfbd0d537354dc8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:31 +0000
Subject: [PATCH 09/26] fix: invalid column metadata is reported instead of
 panicking

---
 src/events/row_events/col_parser.rs | 11 +++++++++--
 src/events/row_events/decimal.rs    |  3 +++
 src/events/row_events/row_parser.rs |  6 +++---
 src/extensions.rs                   |  8 ++++++++
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..5a5a587 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,6 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{read_bitmap_big_endian, read_string, read_uint};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -21,7 +21,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 }
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    let length = read_uint(cursor, metadata as usize)? as usize;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
     Ok(vec)
@@ -158,6 +158,13 @@ pub fn parse_timestamp2(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64
 }
 
 fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata > 6 {
+        return Err(Error::String(format!(
+            "Unexpected fractional seconds precision: {}",
+            metadata
+        )));
+    }
+
     let length = (metadata + 1) / 2;
     if length == 0 {
         return Ok(0);
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..7612224 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,9 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || (scale as u16) > precision {
+        return Err(Error::String("Invalid DECIMAL column metadata".to_string()));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 4437738..dfcd1c0 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -7,7 +7,7 @@ use crate::events::row_events::col_parser::{
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
 use crate::events::table_map_event::TableMapEvent;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num};
+use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_uint};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::collections::HashMap;
 use std::io::{Cursor, Seek, SeekFrom};
@@ -159,10 +159,10 @@ fn parse_cell(
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
         ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
+            MySqlValue::Enum(read_uint(cursor, metadata as usize)? as u32)
         }
         ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
+            MySqlValue::Set(read_uint(cursor, metadata as usize)? as u64)
         }
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..d78799f 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -96,6 +96,14 @@ pub fn read_len_enc_num(cursor: &mut Cursor<&[u8]>) -> Result<usize, Error> {
     }
 }
 
+/// Reads little-endian unsigned integer of the specified size
+pub fn read_uint(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<u64, Error> {
+    if size < 1 || size > 8 {
+        return Err(Error::String(format!("Unexpected integer size: {}", size)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(size)?)
+}
+
 /// Reads bitmap in little-endian bytes order
 pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
-- 
2.43.0


From dea360529de7c2bcbf1ca26327a848d2c0a063de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 10/26] fix: lengths are checked against the received data
 before allocating memory

---
 src/events/row_events/col_parser.rs |  3 ++-
 src/events/table_map_event.rs       |  5 ++++-
 src/extensions.rs                   | 12 ++++++++++++
 src/metadata/table_metadata.rs      |  3 ++-
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 5a5a587..0284ac3 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,6 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string, read_uint};
+use crate::extensions::{check_remaining, read_bitmap_big_endian, read_string, read_uint};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -22,6 +22,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
     let length = read_uint(cursor, metadata as usize)? as usize;
+    check_remaining(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
     Ok(vec)
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..83f0943 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,6 +1,8 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{
+    check_remaining, read_bitmap_little_endian, read_len_enc_num, read_string,
+};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -50,6 +52,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
+        check_remaining(cursor, columns_number)?;
         let mut column_types = vec![0u8; columns_number];
         cursor.read_exact(&mut column_types)?;
 
diff --git a/src/extensions.rs b/src/extensions.rs
index d78799f..252bc77 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -59,7 +59,17 @@ pub fn write_null_term_string(
     Ok(())
 }
 
+/// Checks that the data is present before memory for it is allocated
+pub fn check_remaining(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let remaining = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
+    if size as u64 > remaining {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+    }
+    Ok(())
+}
+
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    check_remaining(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
     Ok(String::from_utf8(vec)?)
@@ -109,6 +119,7 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    check_remaining(cursor, bits_number / 8)?;
     let mut result = vec![false; bits_number];
     let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
@@ -129,6 +140,7 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    check_remaining(cursor, bits_number / 8)?;
     let mut result = vec![false; bits_number];
     let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..fb072b9 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,6 +1,6 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{check_remaining, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
@@ -66,6 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
+            check_remaining(cursor, metadata_length)?;
             let mut metadata = vec![0u8; metadata_length];
             cursor.read_exact(&mut metadata)?;
 
-- 
2.43.0


From 69d7effa87f82592a1dba648c81ef87d343713d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:09 +0000
Subject: [PATCH 11/26] fix: empty packets and errors inside of a result set
 are reported

---
 src/binlog_events.rs | 8 ++++----
 src/configure.rs     | 1 +
 src/extensions.rs    | 3 +++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/binlog_events.rs b/src/binlog_events.rs
index ba7edfb..df997ef 100644
--- a/src/binlog_events.rs
+++ b/src/binlog_events.rs
@@ -45,10 +45,10 @@ impl Iterator for BinlogEvents {
             Ok(x) => x,
             Err(e) => return Some(Err(Error::IoError(e))),
         };
-        match packet[0] {
-            ResponseType::OK => Some(self.read_event(&packet)),
-            ResponseType::ERROR => Some(self.read_error(&packet)),
-            ResponseType::END_OF_FILE => {
+        match packet.first() {
+            Some(&ResponseType::OK) => Some(self.read_event(&packet)),
+            Some(&ResponseType::ERROR) => Some(self.read_error(&packet)),
+            Some(&ResponseType::END_OF_FILE) => {
                 let _ = EndOfFilePacket::parse(&packet[1..]);
                 None
             }
diff --git a/src/configure.rs b/src/configure.rs
index 453616e..f1f7f90 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -74,6 +74,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Reading result set metadata error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
diff --git a/src/extensions.rs b/src/extensions.rs
index 252bc77..b4df4b4 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -157,6 +157,9 @@ pub fn read_bitmap_big_endian(
 }
 
 pub fn check_error_packet(packet: &[u8], message: &str) -> Result<(), Error> {
+    if packet.is_empty() {
+        return Err(Error::String(format!("{} Packet is empty.", message)));
+    }
     if packet[0] == ResponseType::ERROR {
         let error = ErrorPacket::parse(&packet[1..])?;
         let message = format!("{} {:?}", message, error).to_string();
-- 
2.43.0


From 44b6c4c95282eee99a075d6bf477b3ccde8c44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 12/26] fix: incomplete result sets are reported instead of
 panicking

---
 src/configure.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index f1f7f90..f61e600 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -29,8 +29,16 @@ impl BinlogClient {
             ));
         }
 
-        self.options.binlog.filename = result_set[0].cells[0].clone();
-        self.options.binlog.position = result_set[0].cells[1].parse()?;
+        let cells = &result_set[0].cells;
+        if cells.len() < 2 {
+            return Err(Error::String(
+                "Could not read master binlog position.".to_string(),
+            ));
+        }
+
+        let position = cells[1].parse()?;
+        self.options.binlog.filename = cells[0].clone();
+        self.options.binlog.position = position;
         Ok(())
     }
 
@@ -61,7 +69,12 @@ impl BinlogClient {
 
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
-        Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
+        match result_set.first().and_then(|x| x.cells.first()) {
+            Some(name) => Ok(ChecksumType::from_name(name)?),
+            None => Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            )),
+        }
     }
 
     fn read_result_set(
-- 
2.43.0


From 57ea0b901bde80f2c7f5223fa38f6a95d21c60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:57 +0000
Subject: [PATCH 13/26] fix: read the packet which completes
 caching_sha2_password fast authentication

---
 src/connect.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..bc4caba 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -117,7 +117,10 @@ impl BinlogClient {
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet.starts_with(&[0x01, 0x03]) {
+            // It's followed by OK packet.
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
-- 
2.43.0


From 115d3af92520e6d27c98a7514ab7464349aeaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:58 +0000
Subject: [PATCH 14/26] fix: accept OK packet after switching to
 caching_sha2_password

---
 src/connect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index bc4caba..39354b5 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -95,6 +95,10 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication switch error.")?;
 
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
+
         if switch_packet.auth_plugin_name == auth_plugin_names::CACHING_SHA2_PASSWORD {
             self.authenticate_sha_256(
                 channel,
-- 
2.43.0


From 011ca12e162fd44e8a935dd435e6c3f9b011f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 15/26] fix: a missing scramble is reported instead of dividing
 by zero

---
 src/connect.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 39354b5..944f867 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -144,6 +144,12 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Requesting caching_sha2_password public key.")?;
 
+        if scramble.is_empty() {
+            return Err(Error::String(
+                "The server didn't provide scramble.".to_string(),
+            ));
+        }
+
         // Extract public key.
         let public_key = &packet[1..];
         let encrypted_password = xor(&password, &scramble.as_bytes());
-- 
2.43.0


From 3eaba215365fd942c6ab1613fa2e31a2e2ac11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:00 +0000
Subject: [PATCH 16/26] fix: packet sequence numbers wrap around

---
 src/connect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 944f867..690b693 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,7 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num.wrapping_add(1))?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +45,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +61,7 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(channel, switch_packet, seq_num.wrapping_add(1), use_ssl)?;
                 Ok(())
             }
             _ => {
@@ -69,7 +69,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -104,7 +104,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -162,7 +162,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
-- 
2.43.0


From be17d9c41d05314173e658dbc2177572858f5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 17/26] fix: authenticate users without password

---
 src/extensions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index b4df4b4..c9d000a 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,11 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // Empty password is sent as empty response
+    if password.is_empty() {
+        return Vec::new();
+    }
+
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From acbee8c37fccff69e5ae54c3bb7238dfe5c6c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:02 +0000
Subject: [PATCH 18/26] fix: MariaDB gtid is not committed by statements inside
 of a transaction

---
 src/binlog_client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..718c6f9 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -74,6 +74,9 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+
+                // The event replaces BEGIN query unless it has FL_STANDALONE flag.
+                self.transaction = (x.flags & 1) == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
-- 
2.43.0


From ddcae9005fee683b3a18fe0f448cd6b5507cc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:03 +0000
Subject: [PATCH 19/26] fix: gtid of XA transaction is committed at its end

---
 src/binlog_client.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 718c6f9..c70b7d7 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -3,6 +3,7 @@ use crate::constants::database_provider::DatabaseProvider;
 use crate::errors::Error;
 use crate::events::binlog_event::BinlogEvent;
 use crate::events::event_header::EventHeader;
+use crate::events::event_type::EventType;
 use crate::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
 use crate::providers::mariadb::mariadb_provider::replicate_mariadb;
 use crate::providers::mysql::gtid::gtid::Gtid as MySqlGtid;
@@ -62,11 +63,11 @@ impl BinlogClient {
 
     /// Updates current replication position
     pub fn commit(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        self.update_gtid_position(event);
+        self.update_gtid_position(header, event);
         self.update_binlog_position(header, event);
     }
 
-    fn update_gtid_position(&mut self, event: &BinlogEvent) {
+    fn update_gtid_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         if self.options.binlog.starting_strategy != StartingStrategy::FromGtid {
             return;
         }
@@ -88,16 +89,25 @@ impl BinlogClient {
                 if x.sql_statement.is_empty() {
                     return;
                 }
-                if x.sql_statement == "BEGIN" {
+                if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START ") {
                     self.transaction = true;
-                } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
+                } else if x.sql_statement == "COMMIT"
+                    || x.sql_statement == "ROLLBACK"
+                    || x.sql_statement.starts_with("XA COMMIT ")
+                    || x.sql_statement.starts_with("XA ROLLBACK ")
+                {
                     self.commit_gtid();
                 } else if !self.transaction {
                     // Auto-commit query like DDL
                     self.commit_gtid();
                 }
             }
-            _ => {}
+            _ => {
+                // The last event of XA transaction
+                if header.event_type == EventType::MySqlXaPrepare as u8 {
+                    self.commit_gtid();
+                }
+            }
         }
     }
 
-- 
2.43.0


From 3088488d408890cb1712f0af150d0def4bc0aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 20/26] fix: position is not moved between rows events of the
 same statement

---
 src/binlog_client.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index c70b7d7..82791f6 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -114,9 +114,12 @@ impl BinlogClient {
     fn update_binlog_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         // Rows event depends on preceding TableMapEvent & we change the position
         // after we read them atomically to prevent missing mapping on reconnect.
-        // Figure out something better as TableMapEvent can be followed by several row events.
+        // TableMapEvent can be followed by several row events, the last has STMT_END_F flag.
         match event {
             BinlogEvent::TableMapEvent(_) => return,
+            BinlogEvent::WriteRowsEvent(x) if !is_statement_end(x.flags) => return,
+            BinlogEvent::UpdateRowsEvent(x) if !is_statement_end(x.flags) => return,
+            BinlogEvent::DeleteRowsEvent(x) if !is_statement_end(x.flags) => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
@@ -144,3 +147,8 @@ impl BinlogClient {
         }
     }
 }
+
+/// The mapping is still required by following rows events until the statement ends.
+fn is_statement_end(flags: u16) -> bool {
+    (flags & 1) != 0
+}
-- 
2.43.0


From 484710c701966e2206f3d11cc21792b613ae7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 21/26] fix: YEAR value 0000 is not 1900

---
 src/events/row_events/col_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 0284ac3..b406146 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -29,7 +29,11 @@ pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>,
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
-    Ok(1900 + cursor.read_u8()? as u16)
+    // Zero is a special value '0000'
+    match cursor.read_u8()? {
+        0 => Ok(0),
+        x => Ok(1900 + x as u16),
+    }
 }
 
 pub fn parse_date(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<Date, Error> {
-- 
2.43.0


From 9e055b49aa2631437109769c38789419b60f84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 22/26] fix: format description events longer than 255 bytes
 don't overflow

---
 src/events/format_description_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..b677284 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,8 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        if payload_length as u64 + constants::EVENT_HEADER_SIZE as u64 != header.event_length as u64
+        {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From 111846b1e3b65e4de2935fe8795f2e409df711d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 23/26] fix: boundaries of gtid intervals don't overflow

---
 src/commands/dump_binlog_gtid_command.rs       | 6 +++++-
 src/providers/mysql/events/prev_gtids_event.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/commands/dump_binlog_gtid_command.rs b/src/commands/dump_binlog_gtid_command.rs
index e0b7655..b2f4008 100644
--- a/src/commands/dump_binlog_gtid_command.rs
+++ b/src/commands/dump_binlog_gtid_command.rs
@@ -53,7 +53,11 @@ impl DumpBinlogGtidCommand {
 
             for interval in &uuid_set.intervals {
                 cursor.write_u64::<LittleEndian>(interval.start)?;
-                cursor.write_u64::<LittleEndian>(interval.end + 1)?;
+                let end = match interval.end.checked_add(1) {
+                    Some(x) => x,
+                    None => return Err(io::Error::from(io::ErrorKind::InvalidInput)),
+                };
+                cursor.write_u64::<LittleEndian>(end)?;
             }
         }
 
diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..92467b7 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,7 +28,11 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
-                uuid_set.intervals.push(Interval::new(start, end - 1));
+                let end = match end.checked_sub(1) {
+                    Some(x) => x,
+                    None => return Err(Error::String("Invalid gtid interval".to_string())),
+                };
+                uuid_set.intervals.push(Interval::new(start, end));
             }
             gtid_set
                 .uuid_sets
-- 
2.43.0


From 9d350d489b60d79b9873e05485b5835e2e761e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 24/26] fix: caching_sha2_password response hashes the digest
 before the scramble

---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index c9d000a..c0e7af6 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -22,7 +22,7 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From 9e5141b640b9f39ccf1c760189c188ee35c021de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 25/26] fix: GTID dump of MySQL doesn't name a file, so the
 server starts at a transaction boundary

---
 src/providers/mysql/mysql_provider.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/mysql_provider.rs b/src/providers/mysql/mysql_provider.rs
index 36c92d5..5e1bd04 100644
--- a/src/providers/mysql/mysql_provider.rs
+++ b/src/providers/mysql/mysql_provider.rs
@@ -1,5 +1,6 @@
 use crate::commands::dump_binlog_command::DumpBinlogCommand;
 use crate::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
+use crate::constants::FIRST_EVENT_POSITION;
 use crate::errors::Error;
 use crate::packet_channel::PacketChannel;
 use crate::replica_options::ReplicaOptions;
@@ -12,10 +13,11 @@ pub fn replicate_mysql(
 ) -> Result<(), Error> {
     if options.binlog.starting_strategy == StartingStrategy::FromGtid {
         if let Some(gtid_set) = &options.binlog.gtid_set {
+            // Server finds the first missing transaction by itself only if filename is empty.
             let command = DumpBinlogGtidCommand::new(
                 server_id,
-                options.binlog.filename.clone(),
-                options.binlog.position,
+                String::new(),
+                FIRST_EVENT_POSITION as u32,
             );
             channel.write_packet(&command.serialize(&gtid_set)?, 0)?
         } else {
-- 
2.43.0


From 75ca0946756ce02d5ff5a9bd639f9faa51d9dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:43 +0000
Subject: [PATCH 26/26] fix: a MySQL GTID event starts a new transaction after
 one that was cut off

---
 src/binlog_client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 82791f6..a5477c1 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -81,6 +81,9 @@ impl BinlogClient {
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
+
+                // A transaction cut off by a server crash doesn't continue after the event.
+                self.transaction = false;
             }
             BinlogEvent::XidEvent(_) => {
                 self.commit_gtid();
-- 
2.43.0

