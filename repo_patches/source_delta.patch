From 0e7a83023c736572d02fcccac9bcc083db20ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:38 +0000
Subject: [PATCH 01/39] fix: Rust lists of byte and bool generate code that
 compiles

---
 beschi/writers/rust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..c975be0 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,8 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            by_value = var.vartype in ["byte", "bool"] or var.vartype in self.protocol.enums
+            inner = Variable(self.protocol, f"{'*' if by_value else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 2be338d159bbac2089aee937716dbceacf9d6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:38 +0000
Subject: [PATCH 02/39] fix: Rust bounds check cannot overflow on a corrupt
 string length

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..a9cf224 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        size <= self.buffer.len().saturating_sub(self.current_position)
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
-- 
2.43.0


From 0c3ca27ae63b52ac71dab652560858403b18e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 03/39] fix: Zig strings are written with the string size type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 58809e446e41205a474bcf95a8bf503336acc928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 04/39] fix: Zig simple structs write their enum and struct
 members

---
 beschi/writers/zig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..f6276f8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
@@ -74,8 +74,10 @@ class ZigWriter(Writer):
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
-            if var.vartype in NUMERIC_TYPE_SIZES:
+            if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From 1a33f58a3f72cbb5dd22a6f19909d1da2127e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:57 +0000
Subject: [PATCH 05/39] fix: Zig unpackMessages reports a short or corrupt
 header

---
 beschi/writers/boilerplate/Zig.zig | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..cdd3ccb 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,6 +263,9 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
+    if (buffer.len < 8) {
+        return DataReaderError.EOF;
+    }
     if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
@@ -273,7 +276,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
     errdefer allocator.free(msg_list);
 
     if (msg_list.len == 0) {
-- 
2.43.0


From d076e07c65c4c78f81844b339f82abffb1fe1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 06/39] fix: Zig lengths work with signed and 64-bit size types

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index cdd3ccb..913c180 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - len_read.bytes_read) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From 9ee7fe5a38a195aaf819e1ed6d9b08b562bef819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 07/39] fix: Zig readers free what they allocated when they
 fail part way

---
 beschi/writers/boilerplate/Zig.zig | 17 ++++++++++++++++-
 beschi/writers/zig.py              | 19 ++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 913c180..e4cac07 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -235,6 +235,16 @@ pub fn writeBytes(m: *const Message, offset: usize, buffer: []u8, tag: bool) usi
     }
 }
 
+fn freeMessageContents(allocator: std.mem.Allocator, m: *Message) void {
+    switch (m.*) {
+        inline else => |*inner| {
+            if (comptime @hasDecl(@TypeOf(inner.*), "deinit")) {
+                inner.deinit(allocator);
+            }
+        },
+    }
+}
+
 pub fn getPackedSize(msg_list: []const Message) usize {
     var size: usize = 0;
     for (msg_list) |msg| {
@@ -277,7 +287,12 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
         return allocator.alloc(Message, 0);
     }
     const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
-    errdefer allocator.free(msg_list);
+    errdefer {
+        for (msg_list) |*msg| {
+            freeMessageContents(allocator, msg);
+        }
+        allocator.free(msg_list);
+    }
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index f6276f8..71d356f 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -70,6 +70,17 @@ class ZigWriter(Writer):
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
 
+            if not var.is_simple():
+                self.write_line("errdefer {")
+                self.indent_level += 1
+                if var.vartype in self.protocol.structs and not var.is_list:
+                    self.write_line(f"var {accessor}_{var.name}_partial = {accessor}_{var.name};")
+                    self.write_line(f"{accessor}_{var.name}_partial.deinit(allocator);")
+                else:
+                    self.destructor(var, f"{accessor}_")
+                self.indent_level -= 1
+                self.write_line("}")
+
             self.write_line()
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
@@ -358,6 +369,11 @@ class ZigWriter(Writer):
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer for (msg_list.items) |*msg| {")
+        self.indent_level += 1
+        self.write_line("freeMessageContents(allocator, msg);")
+        self.indent_level -= 1
+        self.write_line("};")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -374,6 +390,7 @@ class ZigWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const msg_type: MessageType = std.meta.intToEnum(MessageType, msg_type_byte - 1) catch return DataReaderError.InvalidData;")
+        self.write_line("try msg_list.ensureUnusedCapacity(1);")
         self.write_line("switch(msg_type) {")
         self.indent_level += 1
         for mname, mdata in self.protocol.messages.items():
@@ -384,7 +401,7 @@ class ZigWriter(Writer):
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
             self.write_line("local_offset += msg_read.bytes_read;")
-            self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
+            self.write_line(f"msg_list.appendAssumeCapacity(Message{{ .{mname} = msg_read.value }});")
             self.indent_level -= 1
             self.write_line("},")
         self.indent_level -= 1
-- 
2.43.0


From 64434829e9ff3570b1baddaabaa20db530ba1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 08/39] fix: Go readers report errors from nested structs

---
 beschi/writers/go.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..4d3ccc1 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -112,7 +112,11 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}err")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From 242f2692a79a1bcbcbf4370b98f6bda4b2d61daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 09/39] fix: Go readers validate enums inside simple structs

---
 beschi/writers/go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 4d3ccc1..bf07ad6 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -105,7 +105,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.is_simple() and not (var.vartype in self.protocol.structs and self.struct_has_enums(self.protocol.structs[var.vartype])):
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
-- 
2.43.0


From e779dcf2577e5c5c236ad6b4e4350fc53222d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 10/39] fix: Go readers report truncated strings and corrupt
 lengths instead of panicking

---
 beschi/writers/boilerplate/Go.go | 16 ++++++++++------
 beschi/writers/go.py             |  4 +++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..552f599 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -7,15 +7,19 @@ import (
 )
 
 func readString(data io.Reader, str *string) error {
-	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
-	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
+	var strLen {# STRING_SIZE_TYPE #}
+	if err := binary.Read(data, binary.LittleEndian, &strLen); err != nil {
+		return err
+	}
+	sbytes, err := io.ReadAll(io.LimitReader(data, int64(strLen)))
 	if err != nil {
-		panic(err)
+		return err
+	}
+	if int64(len(sbytes)) != int64(strLen) {
+		return io.ErrUnexpectedEOF
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bf07ad6..5cf91bb 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -64,10 +64,12 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
-            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
+            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, 0)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
             self.indent_level += 1
+            self.write_line(f"var {var.name}_El {self.type_mapping[var.vartype]}")
+            self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, {var.name}_El)")
             if var.vartype in self.protocol.enums:
                 self.write_line(f"var _{var.name} {var.vartype}")
                 self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &_{var.name}); err != nil {{")
-- 
2.43.0


From 73444b969628e4eb0369d682671fceb4a181acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 11/39] fix: Go UnpackMessages reports a short header instead
 of panicking

---
 beschi/writers/boilerplate/Go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 552f599..4c8b461 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -59,7 +59,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
 	err := binary.Read(data, binary.LittleEndian, &sbytes)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From 9f7d295533d50447987d10dc198743bd40c5d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 12/39] fix: Go ProcessRawBytes reports read errors between
 messages

---
 beschi/writers/go.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 5cf91bb..08b2e3f 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -366,6 +366,11 @@ class GoWriter(Writer):
         self.write_line("break")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line("if err != nil {")
+        self.indent_level += 1
+        self.write_line("return nil, fmt.Errorf(\"could not read message type (%w)\", err)")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("if msgType == 0 {")
         self.indent_level += 1
         self.write_line("return msgList, nil")
-- 
2.43.0


From ec81b05c586e650f83e709f68ec5782e64b04779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 13/39] fix: C# GetSizeInBytes counts UTF-8 bytes, not UTF-16
 units

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From 87fb4c628a9ec5ab274460beda405b5244dd13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 14/39] fix: C# readers report truncated strings

---
 beschi/writers/csharp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..1c4d4ce 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -65,7 +65,13 @@ class CSharpWriter(Writer):
             self.write_line("}")
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
-            self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes(checked((int){var_clean}_Length));")
+            self.write_line(f"if ({var_clean}_Buffer.Length != (int){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From 8c4f3917e675588de135f97d9a52a632bf4685ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:10 +0000
Subject: [PATCH 15/39] fix: C# lists compile with a 64-bit list size type

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 1c4d4ce..bccefdf 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,7 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From a259cf5931d0990688cf3a511a06a49e193de66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 16/39] fix: TypeScript strings are read from within the given
 DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..5b843e5 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (len > this.data.byteLength - this.currentOffset) {
+      throw new RangeError("String extends past the end of the data.");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
-- 
2.43.0


From 39932ef1489d60e6fdf48332e8fc71a4beba1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 17/39] fix: TypeScript packed message headers stay within the
 given DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 5b843e5..681ba6e 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -176,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -194,8 +194,7 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
-  da.currentOffset += 4;
+  const headerBuffer = new Uint8Array([da.getByte(), da.getByte(), da.getByte(), da.getByte()]);
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
     throw new Error("Packed message buffer has invalid header.");
-- 
2.43.0


From a3c29f27d14e84c676298871b915f589f174cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 18/39] fix: TypeScript strings keep a leading byte order mark

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 681ba6e..1865e85 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From 81eb1a1a0e579c210ed865aca668928cf6aa3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 19/39] fix: TypeScript 64-bit list and string size types

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 1865e85..400bac0 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = Number(this.get{# STRING_SIZE_TYPE #}());
     if (len > this.data.byteLength - this.currentOffset) {
       throw new RangeError("String extends past the end of the data.");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# STRING_SIZE_CONVERSION #}(strBuffer.byteLength));
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..bcd7b0f 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -51,12 +51,16 @@ class TypeScriptWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
-            if self.is_assembly_script:
+            if not self.is_assembly_script:
+                self.write_line(f"const {var_clean}_Length = Number(da.get{self.base_serializers[self.protocol.list_size_type]}());")
+                index_type = "number"
+            else:
+                self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
                 self.write_line("if (da.hasError) { return null; }")
+                index_type = self.type_mapping[self.protocol.list_size_type]
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {index_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +130,8 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                conversion = "BigInt" if self.protocol.list_size_type in ["int64", "uint64"] else "Number"
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({conversion}({accessor}{var.name}.length));")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -402,6 +407,7 @@ class TypeScriptWriter(Writer):
 
         self.add_boilerplate(substitutions=[
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
+            ("{# STRING_SIZE_CONVERSION #}", "BigInt" if self.protocol.string_size_type in ["int64", "uint64"] else "Number"),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
         ])
 
-- 
2.43.0


From f6ea46293ef4cdc1c9885973a558dfb2fe2c1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 20/39] fix: C string list element lengths use the string size
 type

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..95d04cb 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From e7761ce22d7d91708a46bfbb645b9a6ff426c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 21/39] fix: C _Create initialises the lengths of strings and
 lists

---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 95d04cb..985ba3d 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -338,9 +338,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 4b401855412336bd5579afcd49f4c86ed12a471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 22/39] fix: C destructors do not free the default empty string

---
 beschi/writers/boilerplate/C.0.h | 3 +++
 beschi/writers/boilerplate/C.1.h | 2 ++
 beschi/writers/c.py              | 4 ++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..b79d35e 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -30,6 +30,9 @@ typedef struct {
     size_t position;
 } beschi_DataAccess;
 
+// the default value of string members; shared, so never freed or written to
+extern char beschi_EmptyString[1];
+
 bool beschi_IsFinished(const beschi_DataAccess *r);
 beschi_err_t beschi_ReadUInt8(beschi_DataAccess *r, uint8_t *ui8);
 beschi_err_t beschi_ReadBool(beschi_DataAccess *r, bool *b);
diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..7d049fa 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -27,6 +27,8 @@
 ///////////////////////////////////////
 // standard utility definitions
 
+char beschi_EmptyString[1] = "";
+
 bool beschi_IsFinished(const beschi_DataAccess *r) {
     return r->position >= r->bufferSize;
 }
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 985ba3d..04ed47e 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -210,7 +210,7 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {self.base_defaults[var.vartype]},")
             elif var.vartype == "string":
                 self.write_line(f".{var.name}_len = 0,")
-                self.write_line(f".{var.name} = (char*)\"\",")
+                self.write_line(f".{var.name} = {self.prefix}EmptyString,")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f".{var.name} = {self.prefix}{e.name}_{e.get_default_pair()[0]},")
@@ -239,7 +239,7 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            self.write_line(f"if ({accessor}{var.name} != {self.prefix}EmptyString) {{ {self.prefix.upper()}FREE({accessor}{var.name}); }}")
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
-- 
2.43.0


From 73bc75b9d496088574c47b38b0fb0a62bb8951ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 23/39] fix: C string lengths cannot overflow the bounds check
 or the allocation

---
 beschi/writers/boilerplate/C.1.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index 7d049fa..e55b38e 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -130,14 +130,15 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if ((uint64_t)(r->bufferSize - r->position) < (uint64_t)(*len)) {
         return BESCHI_ERR_EOF;
     }
-    *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
-    if (*s == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
-    memcpy(*s, r->buffer + r->position, *len);
-    (*s)[*len] = '\0';
-    r->position += *len;
+    char *str = (char*)BESCHI_MALLOC((size_t)(*len) + 1);
+    if (str == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
+    memcpy(str, r->buffer + r->position, (size_t)(*len));
+    str[*len] = '\0';
+    *s = str;
+    r->position += (size_t)(*len);
     return BESCHI_ERR_OK;
 }
 
-- 
2.43.0


From 1996a77ce902f71925125df79ceb0e00ee7416c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 24/39] fix: C readers leave something that can be destroyed
 when they fail part way

---
 beschi/writers/c.py | 50 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 04ed47e..d71503e 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -67,6 +67,17 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
 
+    # the smallest number of bytes the variable can take up in a buffer
+    def get_minimum_size(self, var: Variable) -> int:
+        if var.is_list:
+            return NUMERIC_TYPE_SIZES[self.protocol.list_size_type]
+        elif var.vartype == "string":
+            return NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
+        elif var.vartype in self.protocol.structs:
+            return sum(self.get_minimum_size(mem) for mem in self.protocol.structs[var.vartype].members)
+        else:
+            return self.protocol.get_size_of(var.vartype)
+
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
@@ -75,11 +86,33 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
-            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            self.write_line(f"{accessor}{var.name} = NULL;")
+            if var.vartype == "string":
+                self.write_line(f"{accessor}{var.name}_els_len = NULL;")
+            min_size = self.get_minimum_size(Variable(self.protocol, var.name, var.vartype))
+            if min_size > 0:
+                self.write_line(f"if ((uint64_t)({accessor}{var.name}_len) > (uint64_t)((r->bufferSize - r->position) / {min_size})) {{")
+                self.indent_level += 1
+                self.write_line(f"{accessor}{var.name}_len = 0;")
+                self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+                self.indent_level -= 1
+                self.write_line("}")
+            self.write_line(f"if ({accessor}{var.name}_len > 0) {{")
+            self.indent_level += 1
+            allocations = [(f"{accessor}{var.name}", f"{pref}{self.type_mapping[var.vartype]}")]
             if var.vartype == "string":
-                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                allocations.append((f"{accessor}{var.name}_els_len", self.get_native_string_size()))
+            for target, el_type in allocations:
+                self.write_line(f"{target} = ({el_type}*){self.prefix.upper()}MALLOC(sizeof({el_type}) * (size_t)({accessor}{var.name}_len));")
+                self.write_line(f"if ({target} == NULL) {{")
+                self.indent_level += 1
+                self.write_line(f"{accessor}{var.name}_len = 0;")
+                self.write_line(f"return {self.prefix.upper()}ERR_ALLOCATION_FAILURE;")
+                self.indent_level -= 1
+                self.write_line("}")
+                self.write_line(f"memset({target}, 0, sizeof({el_type}) * (size_t)({accessor}{var.name}_len));")
+            self.indent_level -= 1
+            self.write_line("}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -363,7 +396,7 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
         if sdata.is_message:
-            self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
+            self.write_line(f"*dst = {self.prefix}{sname}_default;")
         if len(sdata.members) > 0:
             self.write_line(f"{self.prefix}err_t err;")
         [self.deserializer(mem, "dst->") for mem in sdata.members]
@@ -533,10 +566,10 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}ProcessRawBytes({self.prefix}DataAccess* r, int32_t max, void*** msgListDst, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
+        self.write_line("*len = 0;")
         self.write_line("size_t currCapacity = 8;")
         self.write_line(f"*msgListDst = (void**){self.prefix.upper()}MALLOC(sizeof(void*) * currCapacity);")
         self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
-        self.write_line("*len = 0;")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
@@ -547,8 +580,9 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grown = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grown == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grown;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-- 
2.43.0


From 2328bdb93e717fcaa4a362ec6aaf00f6c3ae4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 25/39] fix: C PackMessages writes at the current position and
 reports a full buffer

---
 beschi/writers/c.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index d71503e..f8792bb 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -689,7 +689,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -715,9 +720,7 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
-        self.write_line()
-        self.write_line(f"return {self.prefix.upper()}ERR_OK;")
+        self.write_line(f"return {self.prefix}WriteUInt8(w, 0);")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
-- 
2.43.0


From 249ba20b5a3e6e9aa43a91dbb8f9a4db5bc5debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 26/39] fix: C UnpackMessages reads at the current position and
 reports a short header

---
 beschi/writers/c.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index f8792bb..81ed545 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -728,7 +728,14 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("*msgListOut = NULL;")
+        self.write_line("*len = 0;")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
-- 
2.43.0


From 280889859130fe24cd64afd26bce0343fe4d663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 27/39] fix: a missing boilerplate file is an error, not a line
 on stdout and incomplete output

---
 beschi/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..342935f 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -74,7 +74,8 @@ class Writer:
             boilerplate_lines = [replace_indent(bpl, self.native_tab, self.tab) for bpl in boilerplate_lines]
             [self.write_line(bpl) for bpl in boilerplate_lines]
         else:
-            print("no file", filename)
+            # without it the output would be incomplete
+            raise FileNotFoundError(f"Missing boilerplate file {boilerplate_path}")
 
     # actually generate the code
     def generate(self) -> str:
-- 
2.43.0


From df14b6d1fb610ca10f64e0db7b0655a00aa8113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 28/39] fix: boilerplate is read and output written as UTF-8
 whatever the locale

---
 beschi/cli.py    | 2 +-
 beschi/writer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..823d9cb 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -94,5 +94,5 @@ def main():
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
diff --git a/beschi/writer.py b/beschi/writer.py
index 342935f..1456121 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -57,7 +57,7 @@ class Writer:
         filename = f"{self.language_name}{index_str}{self.default_extension}"
         boilerplate_path = os.path.join(os.path.abspath(os.path.dirname(__file__)), "writers", "boilerplate", filename)
         if os.path.exists(boilerplate_path):
-            boilerplate_lines = open(boilerplate_path, "r").read().splitlines()
+            boilerplate_lines = open(boilerplate_path, "r", encoding="utf-8").read().splitlines()
             for s in substitutions:
                 if type(s[1]) == str:
                     boilerplate_lines = [bpl.replace(s[0], s[1]) for bpl in boilerplate_lines]
-- 
2.43.0


From f4431dc7557ec2b1a87dd6331edfc4e7a76e24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 29/39] fix: TypeScript size loops over same-named nested lists
 use separate indices

---
 beschi/writers/typescript.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index bcd7b0f..931fce2 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -182,16 +182,18 @@ class TypeScriptWriter(Writer):
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        idx = f"{var.name}_i{accessor.count('[')}" # numbered, so that nested loops over members of the same name stay apart
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{idx}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{idx}], false).byteLength;")
                         lines.append("}")
                     else:
                         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        idx = f"{var_clean}_i{accessor.count('[')}"
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{idx}].")
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
-- 
2.43.0


From 780c0790460c1651d9c0ed72390a259875f1b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:22 +0000
Subject: [PATCH 30/39] fix: a cycle of structs that does not include the
 struct being checked no longer hangs the generator

---
 beschi/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..c070ab5 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -240,11 +240,15 @@ class Protocol():
 
         def check_for_cycles(s: Struct):
             encountered = set([s.name])
+            visited: set[str] = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
                 if new_type in encountered:
                     raise RecursionError(f"{s.name} and {new_type} reference each other")
+                # following a type once is enough; a cycle further in is found from its own members
+                if new_type in visited: continue
+                visited.add(new_type)
                 for cvar in self.structs[new_type].members:
                     if cvar.vartype in encountered:
                         raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
-- 
2.43.0


From 9dedd45712f20560e9d9f694458f9236216d5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 31/39] fix: an embedded protocol cannot end or nest the
 comment it is in

---
 beschi/writer.py             | 4 ++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 1456121..4806ad1 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -77,6 +77,10 @@ class Writer:
             # without it the output would be incomplete
             raise FileNotFoundError(f"Missing boilerplate file {boilerplate_path}")
 
+    # lines of the protocol for embedding in a block comment, which they must neither end nor nest
+    def protocol_comment_lines(self) -> list[str]:
+        return self.protocol.protocol_string.replace("*/", "* /").replace("/*", "/ *").splitlines()
+
     # actually generate the code
     def generate(self) -> str:
         raise NotImplementedError(f"ERROR: 'generate' function needs to be implemented on {self.__class__.__name__}")
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 81ed545..b816af8 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -437,7 +437,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index bccefdf..e71e53c 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -263,7 +263,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 08b2e3f..9763aae 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -314,7 +314,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index c975be0..028a9a7 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -264,7 +264,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..67552b6 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -244,7 +244,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 931fce2..e9f8896 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -396,7 +396,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From b59eb120b94e88225c50b099972f2588bf04f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 32/39] fix: C code for structs declared after their use
 compiles

---
 beschi/writers/c.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index b816af8..f4060ce 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -286,6 +286,20 @@ class CWriter(Writer):
         self.write_line(f"bool {self.prefix}IsValid{ename}({self.type_mapping[edata.encoding]} value);")
         self.write_line()
 
+    def structs_by_dependency(self) -> list[str]:
+        # C needs a struct's type to be declared before another struct can hold it,
+        #  but the protocol may list them in any order
+        ordered: dict[str, None] = {}
+        def place(sname: str):
+            if sname in ordered: return
+            for var in self.protocol.structs[sname].members:
+                if var.vartype in self.protocol.structs:
+                    place(var.vartype)
+            ordered[sname] = None
+        for sname in self.protocol.structs:
+            place(sname)
+        return list(ordered)
+
     def gen_struct(self, sname: str, sdata: Struct):
         self.write_line("typedef struct {")
         self.indent_level += 1
@@ -471,8 +485,8 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
-            self.gen_struct(sname, sdata)
+        for sname in self.structs_by_dependency():
+            self.gen_struct(sname, self.protocol.structs[sname])
 
         for mname, mdata in self.protocol.messages.items():
             self.gen_struct(mname, mdata)
-- 
2.43.0


From 295120a60a8902a5482ed83e80ceba0a83a227d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 33/39] fix: two enums with the same name are refused

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index c070ab5..88b3f46 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -184,6 +184,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From ca74c980f139077e113a1e52abf45a49a2896181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 34/39] fix: an enum whose entries have values cannot have the
 same entry twice

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 88b3f46..22af403 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
-- 
2.43.0


From 2387d11fa4491e925263e4884f1dcb1893cf1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 35/39] fix: data members cannot be named like base types

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 22af403..f420fa5 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -229,6 +229,8 @@ class Protocol():
             for var in s.members:
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From f2d19eec0b161087626c9c60ec916285c3d19b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:21 +0000
Subject: [PATCH 36/39] fix: Zig code for a struct without members compiles

---
 beschi/writers/zig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 71d356f..276cf2c 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -242,6 +242,7 @@ class ZigWriter(Writer):
             self.write_line("_ = self;")
             if not sdata.is_message:
                 self.write_line("_ = offset;")
+                self.write_line("_ = buffer;")
         if sdata.is_simple():
             simple_offset = 0
             if sdata.is_message:
-- 
2.43.0


From c335e12d1347b414af131862897f314a5ea20de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:21 +0000
Subject: [PATCH 37/39] fix: the C header includes what it uses

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index b79d35e..27b9c0b 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -10,6 +10,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <string.h>
 
 typedef uint8_t beschi_err_t;
 #define BESCHI_ERR_OK  0
-- 
2.43.0


From e2d98a102cb2ff0b3ac14f1a52dfe83f26afb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 38/39] fix: a failure to write to standard output is always
 reported

---
 beschi/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 823d9cb..b9ad54a 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -90,7 +90,8 @@ def main():
         sys.exit(1)
 
     if args.output == None:
-        print(output)
+        # flushed here, because at exit a failure could go unnoticed
+        print(output, flush=True)
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-- 
2.43.0


From 12493f301d6fc8cfd52584c922bd18883c1e650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:29 +0000
Subject: [PATCH 39/39] fix: leave out of embedded protocols the invisible
 characters compilers refuse in comments

---
 beschi/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 4806ad1..e684d23 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -79,7 +79,9 @@ class Writer:
 
     # lines of the protocol for embedding in a block comment, which they must neither end nor nest
     def protocol_comment_lines(self) -> list[str]:
-        return self.protocol.protocol_string.replace("*/", "* /").replace("/*", "/ *").splitlines()
+        # byte order marks and directional controls are refused by some compilers even inside of comments
+        text = re.sub("[\ufeff\u202a-\u202e\u2066-\u2069]", "", self.protocol.protocol_string)
+        return text.replace("*/", "* /").replace("/*", "/ *").splitlines()
 
     # actually generate the code
     def generate(self) -> str:
-- 
2.43.0

