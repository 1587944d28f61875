From f4cfad1a129971f55a5a9236bf9f0b0a00f94cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 01/56] fix: take real copies in begin_transaction so a failed
 change can be rolled back

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..341fe64 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -322,7 +322,7 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        state = self.bytes[:].copy(), self.style[:].copy()
         return state
 
     def rollback_transaction(self, state):
-- 
2.43.0


From 9a9bf48f6fd34af03fc312e6165b349014e91476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 02/56] fix: roll back a failed change whatever exception ends
 it, including the metadata re-read

---
 atrcopy/diskimages.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 341fe64..15ded43 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -159,6 +159,7 @@ class DiskImageBase(Bootable):
         self.get_metadata()
 
     def get_metadata(self):
+        self.all_sane = True
         self.get_boot_sector_info()
         self.get_vtoc()
         self.get_directory()
@@ -353,11 +354,11 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+            self.get_metadata()
+        except Exception:
             self.rollback_transaction(state)
-            raise
-        finally:
             self.get_metadata()
+            raise
 
     def build_sectors(self, data):
         data = to_numpy(data)
@@ -387,11 +388,11 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+            self.get_metadata()
+        except Exception:
             self.rollback_transaction(state)
-            raise
-        finally:
             self.get_metadata()
+            raise
 
     def shred(self, fill_value=0):
         state = self.begin_transaction()
@@ -400,8 +401,8 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+            self.get_metadata()
+        except Exception:
             self.rollback_transaction(state)
-            raise
-        finally:
             self.get_metadata()
+            raise
-- 
2.43.0


From b3399e3977a0fad0d2c69169339d33fd768e08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 03/56] fix: BaseHeader.get_pos raised an undefined name for
 out of range sectors

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 15ded43..e743ccf 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From 5ece9416bfbd2c0767d97502b27ac5ae2e7f4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 04/56] fix: define errors.NotImplementedError, which
 unsupported operations raise

---
 atrcopy/errors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atrcopy/errors.py b/atrcopy/errors.py
index f27abee..452b44d 100644
--- a/atrcopy/errors.py
+++ b/atrcopy/errors.py
@@ -2,6 +2,11 @@ class AtrError(RuntimeError):
     pass
 
 
+class NotImplementedError(AtrError):
+    """ Operation is not supported by this type of disk image. """
+    pass
+
+
 class InvalidAtrHeader(AtrError):
     pass
 
-- 
2.43.0


From 96c7724a482276c6049196069d8cc92f371f8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 05/56] fix: save the image when any of the added files was
 written, not only the last

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..4e4ffec 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -154,7 +154,7 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        changed = save_file(image, name, filetype, data) or changed
     if changed:
         image.save()
 
-- 
2.43.0


From 3183d24d53aab9eea36b8e3d54eb24591b40df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 06/56] fix: boot: honor --dry-run and don't overwrite an
 existing image without -f

---
 atrcopy/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 4e4ffec..56af526 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -291,8 +291,12 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     segments, run_addr = assemble_segments(source_files, data_files, obj_files, run_addr)
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
+        if os.path.exists(image_name) and not options.force:
+            print("skipping %s, use -f to overwrite" % (image_name))
+            return
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
@@ -515,7 +519,7 @@ def run():
 
     command = "boot"
     boot_parser = subparsers.add_parser(command, help="Create a bootable disk image", aliases=command_aliases[command])
-    boot_parser.add_argument("-f", "--force", action="store_true", default=False, help="allow file overwrites in the disk image")
+    boot_parser.add_argument("-f", "--force", action="store_true", default=False, help="replace disk image file if it exists")
     boot_parser.add_argument("-s", "--asm", nargs="*", action="append", help="source file(s) to assemble using pyatasm")
     boot_parser.add_argument("-d","--data", nargs="*", action="append", help="binary data file(s) to add to assembly, specify as file@addr. Only a portion of the file may be included; specify the subset using standard python slice notation: file[subset]@addr")
     boot_parser.add_argument("-b", "--obj", "--bload", nargs="*", action="append", help="binary file(s) to add to assembly, either executables or labeled memory dumps (e.g. BSAVE on Apple ][), parsing each file's binary segments to add to the resulting disk image at the load address for each segment")
-- 
2.43.0


From fd8bed2e21b4acbe3f06e7269b8df6fc9a5acc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 07/56] fix: extract: don't create the output directory during
 a dry run

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 56af526..61e2a82 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -110,7 +110,7 @@ def extract_files(image, files):
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
+            if not options.dry_run and not os.path.exists(options.dir):
                 os.makedirs(options.dir)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
-- 
2.43.0


From 1ec400b843f431d87146b1ff6eae51fd1c36f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 08/56] fix: extract: never write outside the output directory
 when a name on the image has path separators

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 61e2a82..1cdd695 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -106,7 +106,7 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        output = dirent.filename
+        output = dirent.filename.replace("/", "_").replace("\\", "_")
         if options.lower:
             output = output.lower()
         if options.dir:
-- 
2.43.0


From 1bb0ee209f953f53bd6c1471d81f2cdb09428625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 09/56] fix: delete: locked files are only removed with -f, as
 its help says

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 1cdd695..1370c92 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -167,6 +167,9 @@ def remove_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
+        if getattr(dirent, "locked", False) and not options.force:
+            print("skipping %s, file is locked. Use -f to delete" % name)
+            continue
         print("removing %s from %s" % (name, image))
         if not options.dry_run:
             image.delete_file(name)
-- 
2.43.0


From 8bb8855ed2a3762e230cd6203f0b947b4f9f3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 10/56] fix: MyDOS files with a cyclic sector chain hung the
 reader

---
 atrcopy/ataridos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..d9348f6 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -239,7 +239,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (int(raw[-3]) << 8) + int(raw[-2])
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
-- 
2.43.0


From 2533f6ad39fe77375dbdabb3fd082b14f0c4b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 11/56] fix: DOS 3.3 track/sector lists and catalogs with a
 cyclic chain hung the reader

---
 atrcopy/dos33.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..4abfc90 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -297,8 +297,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
@@ -461,8 +465,12 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         num = 0
         files = []
+        seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            seen.add(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
@@ -533,8 +541,12 @@ class Dos33DiskImage(DiskImageBase):
         r = self.rawdata
         segments = []
         sector = self.header.first_directory
+        seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            seen.add(sector)
             if _xd: log.debug("loading directory segment from catalog sector %d" % sector)
             raw, pos, size = self.get_raw_bytes(sector)
             byte_order.extend(list(range(pos, pos + size)))
-- 
2.43.0


From b7ba5014a80465a127f48aad177ac15b3e7d8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 12/56] fix: DOS 3.3 locked flag was kept as 0x80, so rewriting
 the catalog unlocked every file

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 4abfc90..9ee0b4a 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -239,7 +239,7 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
+        self.locked = (values[2] & 0x80) > 0
         self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From d402dfba584e2e555f634cef7889bf6b6ba7f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 13/56] fix: DOS 3.3 catalog ended at the first unlocked text
 file

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 9ee0b4a..a6d501f 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -477,7 +477,7 @@ class Dos33DiskImage(DiskImageBase):
             i = 0xb
             while i < 256:
                 dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if dirent.flag == 0 and dirent.track == 0:
                     break
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
-- 
2.43.0


From 8459c79aaf92e852ed651231833085ceab0bc695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 14/56] fix: DOS 3.3 names were read one character short of the
 30 in a catalog entry

---
 atrcopy/dos33.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index a6d501f..ca5c09b 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -240,7 +240,8 @@ class Dos33Dirent(Dirent):
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
         self.locked = (values[2] & 0x80) > 0
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        name_end = 0x20 if self.deleted else 0x21
+        self.filename = (data[3:name_end] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
-- 
2.43.0


From d37aede5c32f069cad7aa1a52fa127812c05f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 15/56] fix: Atari DOS directory entries were rewritten padded
 with NULs instead of spaces

---
 atrcopy/ataridos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d9348f6..612dd84 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -159,8 +159,8 @@ class AtariDosDirent(Dirent):
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        values[3] = self.basename.ljust(8)
+        values[4] = self.ext.ljust(3)
         return data
 
     def mark_deleted(self):
-- 
2.43.0


From c107f420085502f53af955e5e5fa0dc13e1c9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 16/56] fix: delete found entries of deleted files instead of
 the file still on the disk

---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..e1f4569 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -223,11 +223,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From 88930e1a4cd378dffcafd192585d2c6a5d2ae949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 17/56] fix: Atari DOS directory overflowed into the data
 sectors after 64 files

---
 atrcopy/ataridos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 612dd84..8299572 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,9 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    def __init__(self, header, num_dirents=64, sector_class=WriteableSector):
+        Directory.__init__(self, header, num_dirents, sector_class)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
-- 
2.43.0


From 2d6ad153af924c2053ae5b94443272e2cf3a5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 18/56] fix: an empty file needs a sector of its own

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index e743ccf..55a7023 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -364,7 +364,7 @@ class DiskImageBase(Bootable):
         data = to_numpy(data)
         sectors = BaseSectorList(self.header)
         index = 0
-        while index < len(data):
+        while index < len(data) or len(sectors) == 0:
             count = min(self.header.payload_bytes, len(data) - index)
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
-- 
2.43.0


From 96bb2bf5e5660a4486638f8af3481a0fb80e675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 19/56] fix: reading an empty file returned the contents of the
 whole disk

---
 atrcopy/segments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..3b12417 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1108,6 +1108,9 @@ class EmptySegment(DefaultSegment):
     def __len__(self):
         return 0
 
+    def tobytes(self):
+        return b""
+
 
 class ObjSegment(DefaultSegment):
     extra_serializable_attributes = ['metadata_start', 'data_start']
-- 
2.43.0


From 726653233f6b8f91c1e17555348b34d1828b910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 20/56] fix: ATR images with short boot sectors computed the
 wrong position of sectors 2 and 3

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 8299572..d309ef8 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -424,7 +424,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From fa5ee9e7aa3cf284f5b22da464e21f1743208cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 21/56] fix: StandardDeliveryHeader couldn't be converted to a
 string

---
 atrcopy/standard_delivery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..df9883b 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -23,7 +23,7 @@ class StandardDeliveryHeader(BaseHeader):
             raise errors.InvalidDiskImage("No %s boot header" % self.file_format)
 
     def __str__(self):
-        return "Standard Delivery Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
+        return "%s Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
 
     def check_size(self, size):
         if size != 143360:
-- 
2.43.0


From a96ff31baa58befbf8a6e3bfdf51fd045b86f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 22/56] fix: get_indexes_from_base and get_parallel_raw_data
 failed on indexed segments

---
 atrcopy/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 3b12417..528fbf9 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
@@ -550,7 +550,7 @@ class DefaultSegment:
         start, end = other.byte_bounds_offset()
         r = self.rawdata[start:end]
         if other.rawdata.is_indexed:
-            r = r.get_indexed[other.order]
+            r = r.get_indexed(other.rawdata.order)
         return r
 
     def serialize_session(self, mdict):
-- 
2.43.0


From a4a5c7a3fed2adda39948b636b1ce356d1d534e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 23/56] fix: boot: the run address was ignored when creating an
 ATR

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..d602f03 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
-- 
2.43.0


From de6265cf2e754e90132a88291ce6c1e6431c6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 24/56] fix: corrupt gzip data is not a container instead of a
 crash

---
 atrcopy/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..ebd7210 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -1,6 +1,7 @@
 import gzip
 import bz2
 import lzma
+import zlib
 import io
 
 import numpy as np
@@ -55,7 +56,7 @@ class GZipContainer(DiskImageContainer):
             buf = io.BytesIO(byte_data)
             with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                 unpacked = f.read()
-        except OSError as e:
+        except (OSError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return unpacked
 
-- 
2.43.0


From 0e6dac9d8ac1a97760526965db45f45d38b65c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 25/56] fix: right slot cartridge entry had an extra field,
 giving it origin 0

---
 atrcopy/cartridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 4a822d8..2908b24 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -26,7 +26,7 @@ known_cart_types = [
     (0,  "", 0,),
     (57, "Standard 2 KB", 2, 2, 0, 0xb800),
     (58, "Standard 4 KB", 4, 4, 0, 0xb000),
-    (59, "Right slot 4 KB", 4, 4, 0, 0, 0x9000),
+    (59, "Right slot 4 KB", 4, 4, 0, 0x9000),
     (1,  "Standard 8 KB", 8, 8, 0, 0xa000),
     (21, "Right slot 8 KB", 8,),
     (2,  "Standard 16 KB", 16, 16, 0, 0x8000),
-- 
2.43.0


From 9553deb19ad2c4033276e1462a64aa3d78f01b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 26/56] fix: iterating over the comments of an indexed segment
 failed

---
 atrcopy/segments.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 528fbf9..ef655a1 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1052,12 +1052,11 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
         for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+            try:
+                yield self.get_index_from_base_index(k), v
+            except IndexError:
+                continue
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From 7391b661b1faf61ff00241da75438788b129d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 27/56] fix: WriteableSector.next_sector_num was a setter of
 the wrong property

---
 atrcopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index e1f4569..88e9ef8 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -87,7 +87,7 @@ class WriteableSector:
     def next_sector_num(self):
         return self._next_sector_num
 
-    @sector_num.setter
+    @next_sector_num.setter
     def next_sector_num(self, value):
         self._next_sector_num = value
 
-- 
2.43.0


From e77752d0742ca27415dad9696bad4b3510c0178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 28/56] fix: the free sector count in an Atari DOS VTOC didn't
 follow its bitmap

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d309ef8..c824caa 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -42,6 +42,8 @@ class AtariDosVTOC(VTOC):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
         self.vtoc1[0x0a:0x64] = packed
+        free = np.count_nonzero(self.sector_map[0:720])
+        self.vtoc1[3:5] = (free & 0xff, free >> 8)
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
-- 
2.43.0


From 2c5a876da7fd4a476ad835aad436ce01f3f9c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 29/56] fix: a corrupt byte count made Atari DOS files run past
 the end of their sectors

---
 atrcopy/ataridos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index c824caa..d523e12 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -222,7 +222,7 @@ class AtariDosDirent(Dirent):
         if next_sector in self.sectors_seen:
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
-        num_bytes = raw[-1]
+        num_bytes = min(int(raw[-1]), len(raw) - 3)
         return raw[0:num_bytes], num_bytes
 
     def set_values(self, filename, filetype, index):
@@ -249,7 +249,7 @@ class MydosDirent(AtariDosDirent):
         if next_sector in self.sectors_seen:
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
-        num_bytes = raw[-1]
+        num_bytes = min(int(raw[-1]), len(raw) - 3)
         return raw[0:num_bytes], num_bytes
 
 
-- 
2.43.0


From 47a7d2282ca0914af28ba6f63f1b65a7fc8105f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 30/56] fix: reject ATR headers with an impossible sector size

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d523e12..f0282e7 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -371,6 +371,8 @@ class AtrHeader(BaseHeader):
                 raise errors.InvalidAtrHeader("no ATR header magic value")
             self.image_size = (int(values[3]) * 256 * 256 + int(values[1])) * 16
             self.sector_size = int(values[2])
+            if self.sector_size < 128:
+                raise errors.InvalidAtrHeader("invalid sector size %d" % self.sector_size)
             self.crc = int(values[4])
             self.unused = int(values[5])
             self.flags = int(values[6])
-- 
2.43.0


From d397f074a9267952916b630a235db99a84bdca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 31/56] fix: SpartaDOS sector maps with a cyclic chain hung the
 reader, full ones ended in an IndexError

---
 atrcopy/spartados.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..8bfec26 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -96,7 +96,10 @@ class SpartaDosDirent(AtariDosDirent):
         self.length_remaining = self.length
 
     def read_sector(self, image):
-        sector = self.sector_map[self.sector_map_index]
+        if self.sector_map_index < len(self.sector_map):
+            sector = self.sector_map[self.sector_map_index]
+        else:
+            sector = 0
         if sector == 0:
             return None, True, 0, self.length_remaining
         raw, pos, size = image.get_raw_bytes(sector)
@@ -209,7 +212,11 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        seen = set()
         while sector > 0:
+            if sector in seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
-- 
2.43.0


From b187fc12386980f81d317a9e72e58d5fb67fef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 32/56] fix: KBoot and SpartaDOS images refuse to be modified
 as if they were Atari DOS 2

---
 atrcopy/kboot.py     | 4 +++-
 atrcopy/spartados.py | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index d602f03..6f86795 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -46,7 +46,9 @@ class KBootImage(AtariDosDiskImage):
     def get_vtoc(self):
         pass
 
-    def get_directory(self):
+    def get_directory(self, directory=None):
+        if directory is not None:
+            raise errors.NotImplementedError("Can't change files in a KBoot image")
         dirent = KBootDirent(self)
         if not dirent.is_sane:
             self.all_sane = False
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 8bfec26..36507dc 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -167,7 +167,9 @@ class SpartaDosDiskImage(AtariDosDiskImage):
     def get_vtoc(self):
         pass
 
-    def get_directory(self):
+    def get_directory(self, directory=None):
+        if directory is not None:
+            raise errors.NotImplementedError("Can't change files in a SpartaDOS image")
         self.files = []
         dir_map = self.get_sector_map(self.root_dir)
         sector = dir_map[0]
@@ -210,6 +212,9 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         segments.append(segment)
         return segments
 
+    def get_vtoc_object(self):
+        raise errors.NotImplementedError("SpartaDOS bitmaps are not supported")
+
     def get_sector_map(self, sector):
         m = None
         seen = set()
-- 
2.43.0


From 3ecd2aa824d630fc7e33e0ad3a814093f300ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 33/56] fix: a DOS 3.3 disk whose last catalog sector is in use
 couldn't be modified

---
 atrcopy/dos33.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index ca5c09b..dd22e32 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -577,12 +577,12 @@ class Dos33DiskImage(DiskImageBase):
     def get_directory_sector_links(self, sector_num):
         if sector_num == -1:
             sector_num = self.header.first_directory
+        if sector_num == 0:
+            raise errors.NoSpaceInDirectory("No space left in catalog")
         self.assert_valid_sector(sector_num)
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From 1e4f5c8842abd00562282d7d5d375708c465450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 34/56] fix: deleting a sparse DOS 3.3 file freed the boot
 sector

---
 atrcopy/dos33.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index dd22e32..2a4ca2f 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -320,6 +320,8 @@ class Dos33Dirent(Dirent):
         sectors = BaseSectorList(image.header)
         sectors.extend(self.track_sector_list)
         for sector_num in self.sector_map:
+            if sector_num == 0:
+                continue  # hole in a sparse file, no sector allocated
             sector = WriteableSector(image.header.sector_size, None, sector_num)
             sectors.append(sector)
         return sectors
-- 
2.43.0


From 4986feb37cd9075b2d28a99aec18cd3764568456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 35/56] fix: data that crashes a parser is not in that parser's
 format

---
 atrcopy/magic.py   | 5 ++++-
 atrcopy/parsers.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/atrcopy/magic.py b/atrcopy/magic.py
index 324afda..07c44dd 100644
--- a/atrcopy/magic.py
+++ b/atrcopy/magic.py
@@ -53,7 +53,10 @@ magic = [
 
 def check_signature(raw, sig):
     for index, expected in sig:
-        actual = raw.data[index].tolist()
+        try:
+            actual = raw.data[index].tolist()
+        except IndexError:
+            return False
         if actual == expected:
             log.debug(" match at %s: %s" % (str(index), str(expected)))
         if actual != expected:
diff --git a/atrcopy/parsers.py b/atrcopy/parsers.py
index 44340be..377139a 100644
--- a/atrcopy/parsers.py
+++ b/atrcopy/parsers.py
@@ -78,7 +78,7 @@ class SegmentParser:
             self.image.parse_segments()
         except errors.UnsupportedDiskImage:
             raise
-        except errors.AtrError as e:
+        except Exception as e:
             raise errors.InvalidSegmentParser(e)
         self.segments.extend(self.image.segments)
 
-- 
2.43.0


From 1a36a9c27e9e3b3e99ecbbf5d275bda0e95f0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 36/56] fix: BSAVE segment name formatted an argument it has no
 place for

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 2a4ca2f..5be457e 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -647,7 +647,7 @@ class Dos33BinFile(Bootable):
             s[pos:pos + 4] = get_style_bits(data=True)
             data = b[pos + 4:pos + 4 + count]
             if len(data) == count:
-                name = "BSAVE data" % start
+                name = "BSAVE data"
             else:
                 raise errors.InvalidBinaryFile(f"Incomplete BSAVE data: expected {count}, loaded {len(data)}")
             self.segments.append(ObjSegment(r[pos + 4:pos + 4 + count], pos, pos + 4, start, start + len(data), name))
-- 
2.43.0


From 4937f800a9bf06f43cc2c514bdcbf90eef538b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:21 +0000
Subject: [PATCH 37/56] fix: get_contiguous_sectors started one sector late
 when the first one is at offset 0

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 55a7023..6037a6b 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -254,7 +254,7 @@ class DiskImageBase(Bootable):
         count = 0
         for index in range(sector, sector + num):
             pos, size = self.header.get_pos(index)
-            if start == 0:
+            if index == sector:
                 start = pos
             count += size
         return start, count
-- 
2.43.0


From 58c4c9b6c535f61808bf09b5c7a4c8e6428a89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:45 +0000
Subject: [PATCH 38/56] fix: a catalog rewrite dropped inverse, flashing and
 trailing control characters from DOS 3.3 file names

---
 atrcopy/dos33.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 5be457e..399e698 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -166,6 +166,7 @@ class Dos33Dirent(Dirent):
         self.track = 0
         self.sector = 0
         self.filename = ""
+        self.raw_filename = None  # as found in the catalog
         self.num_sectors = 0
         self.is_sane = True
         self.current_sector_index = 0
@@ -241,6 +242,7 @@ class Dos33Dirent(Dirent):
         self._file_type = values[2] & 0x7f
         self.locked = (values[2] & 0x80) > 0
         name_end = 0x20 if self.deleted else 0x21
+        self.raw_filename = data[3:name_end].copy()
         self.filename = (data[3:name_end] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
@@ -254,6 +256,10 @@ class Dos33Dirent(Dirent):
         n = min(len(self.filename), 30)
         data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
         data[3+n:] = ord(' ') | 0x80
+        if self.raw_filename is not None:
+            # inverse, flashing and control characters are not part of the
+            # text, but have to be kept
+            data[3:3 + len(self.raw_filename)] = self.raw_filename
         if self.deleted:
             data[0x20] = self.track
         values[4] = self.num_sectors
@@ -355,6 +361,7 @@ class Dos33Dirent(Dirent):
 
     def set_values(self, filename, filetype, index):
         self.filename = '%-30s' % filename[0:30]
+        self.raw_filename = None
         self._file_type = self.text_to_type.get(filetype, 0x04)
         self.locked = False
         self.deleted = False
-- 
2.43.0


From 551a9bd378ee1c1c2a8e0005783167a3ee7ec2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:16 +0000
Subject: [PATCH 39/56] fix: boot disks of executables over 64K got a wrong
 size in the KBoot loader

---
 atrcopy/kboot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 6f86795..c42ec9c 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -113,7 +113,8 @@ def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari us
         author = ""
     bootsize = np.alen(bootcode)
     v = bootcode[9:11].view(dtype="<u2")
-    v[0] = xex_size
+    v[0] = xex_size & 0xffff
+    bootcode[11] = xex_size >> 16
 
     bootsectors = np.zeros([384], dtype=np.uint8)
     bootsectors[0:bootsize] = bootcode
-- 
2.43.0


From c45162ba56cf9bd606734205e64a005930d12664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:16 +0000
Subject: [PATCH 40/56] fix: boot: creating an Apple boot disk without a run
 address crashed

---
 atrcopy/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 1370c92..9473680 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -273,6 +273,8 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                 run_addr = int(run_addr)
             except ValueError:
                 run_addr = None
+    else:
+        run_addr = None
 
     return segments, run_addr
 
-- 
2.43.0


From 7a2d892df8f8938ad95784f0135a472664448021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:16 +0000
Subject: [PATCH 41/56] fix: a run address of 0 was ignored

---
 atrcopy/executables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index fc1ffb1..4e0df81 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -25,7 +25,7 @@ def get_xex(segments, run_addr=None):
             runad = True
     if not runad:
         words = np.empty([1], dtype='<u2')
-        if run_addr:
+        if run_addr is not None:
             found = False
             for s in segments:
                 if run_addr >= s.origin and run_addr < s.origin + len(s):
@@ -73,7 +73,7 @@ def get_bsave(segments, run_addr=None):
         origin = min(origin, s.origin)
         last = max(last, s.origin + len(s))
         if _xd: log.debug("contiguous bytes needed: %04x - %04x" % (origin, last))
-    if run_addr and run_addr != origin:
+    if run_addr is not None and run_addr != origin:
         # check if run_addr points to some location that has data
         found = False
         for s in segments:
-- 
2.43.0


From 452c2161975c58a1882db609be5752ccc53080ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 42/56] fix: interleave_segments refused reordered segments of
 the same image

---
 atrcopy/segments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index ef655a1..eaf44f0 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -333,7 +333,10 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
+        if self.is_indexed:
+            data_base = self.data.np_data
+            style_base = self.style.np_data
+        elif self.data.base is None:
             data_base = self.data
             style_base = self.style
         else:
-- 
2.43.0


From 5c533027b59d593a479235cd35ca507bef9b4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:50 +0000
Subject: [PATCH 43/56] fix: compare_segment failed on reordered segments

---
 atrcopy/segments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index eaf44f0..b9b6115 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1084,9 +1084,8 @@ class DefaultSegment:
 
     def compare_segment(self, other_segment):
         self.clear_style_bits(diff=True)
-        diff = self.rawdata.data != other_segment.rawdata.data
-        d = diff * np.uint8(diff_bit_mask)
-        self.style |= (diff * np.uint8(diff_bit_mask))
+        diff = self.rawdata.unindexed_data != other_segment.rawdata.unindexed_data
+        self.style[:] |= (diff * np.uint8(diff_bit_mask))
         log.debug("compare_segment: # entries %d, # diffs: %d" % (len(diff), len(np.where(diff == True)[0])))
 
 
-- 
2.43.0


From 519aa45013a531c6d23bda1aa6479099dfc3cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:39 +0000
Subject: [PATCH 44/56] fix: a saved segment without bytes was restored as the
 whole image

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index b9b6115..898b577 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -539,7 +539,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From 26ebd5bdf36dbe437ae40d0d2e1365cf715682d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:44 +0000
Subject: [PATCH 45/56] fix: reading a DOS 3.3 file without data sectors raised
 an out of range error

---
 atrcopy/dos33.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 399e698..58c50f1 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -341,6 +341,9 @@ class Dos33Dirent(Dirent):
         self.current_read = self.num_sectors
 
     def read_sector(self, image):
+        if not self.sector_map:
+            # a file without data has a track/sector list but no data sectors
+            return image.bytes[0:0], True, 0, 0
         try:
             sector = self.sector_map[self.current_sector_index]
         except IndexError:
-- 
2.43.0


From c7c3f72bd4918afbe0d97615e26def57c9c4d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:51 +0000
Subject: [PATCH 46/56] fix: SpartaDOS listed deleted entries as files

---
 atrcopy/spartados.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 36507dc..c69b814 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -180,7 +180,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         s = self.get_file_segment(d)
         for filenum, i in enumerate(range(23, d.length, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
-            self.files.append(dirent)
+            if dirent.in_use:
+                self.files.append(dirent)
         self.root_dir_dirent = d
 
     def get_boot_segments(self):
-- 
2.43.0


From acd5f0e23e0232fef73c35767efa097f1bd6b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:58 +0000
Subject: [PATCH 47/56] fix: SpartaDOS hidden and archived flags were read from
 the wrong bits

---
 atrcopy/spartados.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index c69b814..93fa0ad 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -57,8 +57,8 @@ class SpartaDosDirent(AtariDosDirent):
         flag = values[0]
         self.flag = flag
         self.locked = (flag&0x1) > 0
-        self.hidden = (flag&0x10) > 0
-        self.archived = (flag&0x100) > 0
+        self.hidden = (flag&0b10) > 0
+        self.archived = (flag&0b100) > 0
         self.in_use = (flag&0b1000) > 0
         self.deleted = (flag&0b10000) > 0
         self.is_dir = (flag&0b100000) > 0
-- 
2.43.0


From ed6322410516bf90d3ed263afe0dd55460762ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:04 +0000
Subject: [PATCH 48/56] fix: templates whose name is part of another template's
 name could not be created

---
 atrcopy/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 9473680..bd9c76f 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -380,6 +380,11 @@ def get_template_data(template):
     possibilities = get_template_images(template)
     if not possibilities:
         raise errors.InvalidDiskImage("Unknown template disk image %s" % template)
+    for name in possibilities:
+        if template == name or template == os.path.splitext(name)[0]:
+            # full name, even if it is part of the name of another template
+            possibilities = {name: possibilities[name]}
+            break
     if len(possibilities) > 1:
         raise errors.InvalidDiskImage("Name %s is ambiguous (%d matches: %s)" % (template, len(possibilities), ", ".join(sorted(possibilities.keys()))))
     name, inf = possibilities.popitem()
-- 
2.43.0


From 4e48e34fded3b1f4be1c2ed40cc0f64d9e35cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 49/56] fix: segments sharing a page erased each other on Apple
 boot disks

---
 atrcopy/standard_delivery.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index df9883b..5ff0758 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -70,6 +70,7 @@ class StandardDeliveryImage(DiskImageBase):
             run_addr = segments[0].origin
 
         chunks = []
+        memory = np.zeros([0x20000], dtype=np.uint8)
 
         for s in segments:
             # find size in 256 byte chunks that start on a page boundary
@@ -82,8 +83,11 @@ class StandardDeliveryImage(DiskImageBase):
             else:
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
-            chunk = np.zeros([size], dtype=np.uint8)
+            start = chunk_start * 256
+            # keep what earlier segments have put in the same pages
+            chunk = np.copy(memory[start:start + size])
             chunk[padding:padding + len(s)] = s[:]
+            memory[start:start + size] = chunk
             chunks.append((chunk_start, chunk, show_hgr))
             print("segment: %s, pages=%d" % (str(s), len(chunk) // 256))
             log.debug(" last chunk=%s" % str(chunks[-1]))
-- 
2.43.0


From eec499eda33f39d11da5d7ffb1a561c4655d67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:33 +0000
Subject: [PATCH 50/56] fix: the boot segments of an Atari DOS disk were looked
 for in the VTOC instead of the boot sector

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index f0282e7..be5dda4 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -601,7 +601,7 @@ class AtariDosDiskImage(DiskImageBase):
         ])
 
     def get_boot_segments(self):
-        data, style = self.get_sectors(360)
+        data, style = self.get_sectors(1)
         values = data[0:20].view(dtype=self.boot_record_type)[0]
         flag = int(values[0])
         segments = []
-- 
2.43.0


From 6ef8af7c83fecafb613b93a70b5c679bc48c5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:33 +0000
Subject: [PATCH 51/56] fix: VTOC and directory of a double density disk were
 labelled with wrong sector numbers

---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index be5dda4..05f0c74 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -621,7 +621,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(self.first_vtoc, self.num_vtoc)
-        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 128, 3, self.header.sector_size, name="VTOC")
+        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 0, 0, self.header.sector_size, name="VTOC")
         segment.style[:] = get_style_bits(data=True)
         segment.set_comment_at(0x00, "Type code")
         segment.set_comment_at(0x01, "Total number of sectors")
@@ -633,7 +633,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments.append(segment)
         if self.vtoc2 > 0:
             start, count = self.get_contiguous_sectors(self.vtoc2, 1)
-            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 128, 3, self.header.sector_size, name="VTOC2")
+            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 0, 0, self.header.sector_size, name="VTOC2")
             segment.style[:] = get_style_bits(data=True)
             segment.set_comment_at(0x00, "Repeat of sectors 48-719")
             segment.set_comment_at(0x44, "Sector bit map 720-1023")
@@ -647,7 +647,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(361, 8)
-        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
+        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 0, 0, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
         index = 0
         for filenum in range(64):
-- 
2.43.0


From c547d8e2e5ff08edf2fe20ce6fe9287f1be2b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:33 +0000
Subject: [PATCH 52/56] fix: the boot segments of a SpartaDOS disk listed the
 header twice and covered one sector only

---
 atrcopy/spartados.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 93fa0ad..b89e97c 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -186,7 +186,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_boot_segments(self):
         segments = []
-        num = min(self.num_boot, 1)
+        num = max(self.num_boot, 1)
         s = self.get_sector_slice(1, num)
         r = self.rawdata[s]
         addr = self.boot_addr
@@ -195,7 +195,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         if self.num_boot > 0:
             sectors = ObjSegment(r, 0, 0, addr, addr + len(r), name="Boot Sectors")
             code = ObjSegment(r[43:], 0, 0, addr + 43, addr + len(r), name="Boot Code")
-            segments.extend([header, code])
+            segments.extend([sectors, code])
         return segments
 
     def get_vtoc_segments(self):
-- 
2.43.0


From a35c3fceb6849047ba4df02cf33b75c9f2ad808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:33 +0000
Subject: [PATCH 53/56] fix: the last boot segment of a DOS 3.3 disk had one
 sector too many

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 58c50f1..949932c 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -515,7 +515,7 @@ class Dos33DiskImage(DiskImageBase):
         s = self.get_sector_slice(0x0a, 0x0b)
         r = self.rawdata[s]
         relocator = ObjSegment(r, 0, 0, 0x1b00, name="Relocator")
-        s = self.get_sector_slice(0x0c, 0x0c + 25)
+        s = self.get_sector_slice(0x0c, 0x0c + 24)
         r = self.rawdata[s]
         boot3 = ObjSegment(r, 0, 0, 0x1d00, name="Boot 3")
         return [boot1, boot2, relocator, boot3]
-- 
2.43.0


From adce8cddc688a60e8931d975283707a9a8b8805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 54/56] fix: assemble and boot used only the first of repeated
 -s, -d and -b options

---
 atrcopy/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index bd9c76f..a804b3e 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -615,9 +615,9 @@ def run():
     if command == "create":
         create_image(options.template[0], disk_image_name)
     elif command == "boot":
-        asm = options.asm[0] if options.asm else []
-        data = options.data[0] if options.data else []
-        obj = options.obj[0] if options.obj else []
+        asm = [name for group in options.asm or [] for name in group]
+        data = [name for group in options.data or [] for name in group]
+        obj = [name for group in options.obj or [] for name in group]
         boot_image(disk_image_name, asm, data, obj, options.run_addr)
     else:
         try:
@@ -643,9 +643,9 @@ def run():
             elif command == "extract":
                 extract_files(parser.image, options.files)
             elif command == "assemble":
-                asm = options.asm[0] if options.asm else []
-                data = options.data[0] if options.data else []
-                obj = options.obj[0] if options.obj else []
+                asm = [name for group in options.asm or [] for name in group]
+                data = [name for group in options.data or [] for name in group]
+                obj = [name for group in options.obj or [] for name in group]
                 assemble(parser.image, asm, data, obj, options.run_addr)
             elif command == "segments":
                 print("\n".join([str(a) for a in parser.segments]))
-- 
2.43.0


From 4be66d883f4b5c80e5a5de19482c4c26d2c7c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:30 +0000
Subject: [PATCH 55/56] fix: find_previous skipped a match starting one byte
 before the index

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 898b577..d257f33 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -800,7 +800,7 @@ class DefaultSegment:
     def find_previous(self, index, **kwargs):
         ranges = self.get_style_ranges(**kwargs)
         if len(ranges) > 0:
-            index_tuple = (index - 1, 0)
+            index_tuple = (index, 0)
             match_index = bisect.bisect_left(ranges, index_tuple)
             match_index -= 1
             if match_index < 0:
-- 
2.43.0


From 765acb6da149085170eb585737fc7ade92a0ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:32 +0000
Subject: [PATCH 56/56] fix: SpartaDOS file lengths of 8 MB and more were read
 as negative

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index b89e97c..f213e97 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -13,7 +13,7 @@ class SpartaDosDirent(AtariDosDirent):
         ('status', 'u1'),
         ('sector', '<u2'),
         ('len_l', '<u2'),
-        ('len_h', 'i1'),
+        ('len_h', 'u1'),
         ('filename','S8'),
         ('ext','S3'),
         ('date','S3'),
-- 
2.43.0

