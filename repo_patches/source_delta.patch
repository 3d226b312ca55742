From 2c134f5b383d9ec8c27dc8228b3c29695d8a97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 01/10] fix: record key events when the first key-on happens at
 sample 0

---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..1da15b7 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From 7582256bfc0dea9efe31936294b5b0555b37b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 02/10] fix: decode all five bits of the YM2151 second decay
 rate (D2R)

---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 1da15b7..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From b8b306040284b37b929ca1adb10f009aaf03fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 03/10] fix: honour the wait part of the 0x80-0x8F VGM commands

---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..df74409 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 DAC write from the data bank, followed by a wait of n samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From 5c3fe5899fb50723f70ea508448b585da94b2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 04/10] fix: mask the chip select bit out of the VGM data block
 size

---
 src/vgm/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index df74409..f70154f 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -120,7 +120,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         (tt, ss) = struct.unpack("<xBI", buffer)
         _ = tt
         _ = ss
-        return VgmCommand(cmd_id, f.read(ss))
+        # Bit 31 of the size selects the second chip
+        return VgmCommand(cmd_id, f.read(ss & 0x7FFFFFFF))
     elif cmd_id == 0x68:
         buffer = f.read(11)
         (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", buffer)
-- 
2.43.0


From 556bc68ec9f020b6bc265143bc95b316b06411a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 05/10] fix: keep chip clocks per Vgm instance instead of
 sharing one dict

---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index f70154f..d292b52 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,10 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks: Dict[str, int] = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From 9d53edf81234a46da3d8e9477c44b575d57b2168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 06/10] fix: stop processing commands at the end of sound data
 marker

---
 src/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..1206e32 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,9 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            # Whatever follows (GD3 tag, padding) is not command data
+            break
 
     return st
 
-- 
2.43.0


From 06ac3b9139d62caaaaebc7134572a87d9aeda7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 07/10] fix: main() must not depend on the global args of the
 script

---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index 1206e32..54500fc 100644
--- a/src/main.py
+++ b/src/main.py
@@ -30,7 +30,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(args.file))
+        print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
-- 
2.43.0


From 2403c39eb770a422c6754c72c967671bc3810b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 08/10] fix: compute the song tempo without floating point
 rounding

---
 src/extractors.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..42892b7 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -20,10 +20,9 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
     notes_per_beat = 4
     line_count = 64
 
-    note_length = ticks_per_note / sample_freq
-    beat_length = note_length * notes_per_beat
-    bpm = 60 / beat_length
-    song.globals.beats_per_min = int(bpm)
+    # Integer arithmetic: going through floats rounds e.g. 441 bpm down to 440
+    beat_length = ticks_per_note * notes_per_beat
+    song.globals.beats_per_min = 60 * sample_freq // beat_length
 
     for ch in range(channel_count):
         for n in s.key_presses(ch):
-- 
2.43.0


From 27818dc779740294c0952790f07e8886306a107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 09/10] fix: write the last row of the tracks CSV

---
 src/extractors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 42892b7..3ce98af 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -111,6 +111,17 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            # The last row has no following row to trigger its output
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From 7961f40193857ff995ecf38a7cb4600863b1177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 10/10] fix: give binary standard streams to callers of
 smart_open in binary mode

---
 src/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..11fa50f 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -7,14 +7,14 @@ def smart_open(filename: str, mode: str):
     if filename and filename != "-":
         fh = open(filename, mode)
     elif mode.startswith("w"):
-        fh = sys.stdout
+        fh = sys.stdout.buffer if "b" in mode else sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        fh = sys.stdin.buffer if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
     try:
         yield fh
     finally:
-        if fh is not sys.stdout and fh is not sys.stdin:
+        if filename and filename != "-":
             fh.close()
-- 
2.43.0

