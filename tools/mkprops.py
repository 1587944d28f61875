#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the texts stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, symbols):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()), anchors=dict(files=["atrcopy/" + f for f in files], mechanism=[dict(name=s, where=", ".join("atrcopy/" + f for f in files)) for s in symbols])))

p("C01", "A failed change leaves the disk image exactly as it was",
  """When adding, deleting or shredding on a disk image ends in an error, whatever the error and wherever it
  happens, every byte and every style byte of the image is what it was before the call, and the error reaches the caller.
  A change that returns normally was not rolled back.""",
  ["inputs", "fault_sequences"], "all image types, file names, contents and all points at which an operation can fail",
  "The tests make two operations fail (disk full, catalog full) and compare little; they cannot place an error at every step.",
  ["diskimages.py", "utils.py", "ataridos.py", "dos33.py"], ["DiskImageBase.write_file", "DiskImageBase.delete_file", "DiskImageBase.shred", "DiskImageBase.begin_transaction", "DiskImageBase.rollback_transaction"])
p("C02", "--dry-run changes nothing on the host file system",
  """With --dry-run no command creates, overwrites, renames or removes any file or directory on the host, for every combination of
  the other options. The disk image named on the command line is not rewritten either.""",
  ["inputs", "configurations"], "all commands, option combinations and images",
  "No test runs the command line with --dry-run.", ["__init__.py", "diskimages.py", "dummy.py"], ["run", "extract_files", "add_files", "remove_files", "create_image", "boot_image", "assemble", "shred_image"])
p("C03", "Host files are only overwritten with --force",
  """Unless --force is given, extracting files, creating an image from a template and creating a boot disk never open a host path for
  writing without having found, earlier on the same path through the command, that exactly that path does not exist.""",
  ["inputs", "configurations"], "all commands that create host files, all names, directories and options",
  "Tests call library functions on scratch data; none pre-creates the destination and varies directory, case and force options.",
  ["__init__.py"], ["extract_files", "create_image", "boot_image"])
p("C04", "Files inside an image are only replaced or unlocked-deleted with --force",
  """Unless --force is given, add and assemble write a file into an image only after looking that same name up and finding it absent,
  and never delete one; delete leaves files that are locked on the image alone.""",
  ["inputs", "histories"], "all images, all lists of names, all commands",
  "Tests exercise the library's write and delete but not the command layer's decision for names that exist or are locked.",
  ["__init__.py"], ["save_file", "add_files", "assemble", "remove_files"])
p("C05", "Extracted files never land outside the chosen directory",
  """Extraction writes every file directly in the current directory or the directory given with --dir, whatever bytes the image holds
  as file name; path separators in a name stored on an image never take part in the host path.""",
  ["inputs"], "all images, i.e. all byte strings in directory entries", "Tests use well-behaved names.",
  ["__init__.py"], ["extract_files"])
p("C06", "The image file is rewritten exactly when it was changed",
  """When a command that is not a dry run completes, the image file has been saved after the last change made to the image in memory, and
  it has not been saved when nothing changed; saving writes the complete image to the named file.""",
  ["inputs", "histories"], "all commands and all lists of files, with any mixture of accepted and skipped ones",
  "Tests change images in memory and rarely go through the command layer with several files.",
  ["__init__.py", "diskimages.py"], ["add_files", "remove_files", "assemble", "shred_image", "DiskImageBase.save"])
p("C07", "Cyclic links on an image never hang the program",
  """Following any chain of links stored in an image (file sectors, track/sector lists, catalog sectors, sector maps) ends after finitely
  many steps for every image content: with data, or with one of the library's errors when a link leads back to a sector already visited.""",
  ["inputs"], "all image contents", "There are few corrupt images in the tests, and a hang is not an assertion.",
  ["ataridos.py", "dos33.py", "spartados.py"], ["AtariDosDirent.process_raw_sector", "MydosDirent.process_raw_sector", "Dos33Dirent.get_track_sector_list", "Dos33DiskImage.get_directory", "SpartaDosDiskImage.get_sector_map"])
p("C08", "Unrecognised or malformed data ends in a documented error",
  """Identifying data (plain or compressed) either succeeds or raises one of the library's own exceptions, never a raw decompression, index, value,
  arithmetic or lookup error; whatever goes wrong inside one format's parser only rules out that format, except that data recognised but
  unsupported is reported as such.""",
  ["inputs"], "all byte strings given as image, including truncated and corrupt compressed data", "Tests feed a handful of corrupt files.",
  ["parsers.py", "container.py", "dcm.py", "magic.py", "__init__.py"], ["find_diskimage_from_data", "guess_container", "guess_parser_for_mime", "SegmentParser.parse", "DiskImageContainer"])
p("C09", "Reading never modifies an image",
  """Loading an image, listing, extracting or checksumming files, enumerating segments and asking a segment for ranges, comments, labels or
  text never change a data byte; segment queries do not change styles or comments either.""",
  ["inputs", "histories"], "all image types and contents, all sequences of read-only operations",
  "Tests compare results, not that the underlying arrays, which segments share, are unchanged after every query.",
  ["diskimages.py", "ataridos.py", "dos33.py", "spartados.py", "kboot.py", "segments.py", "executables.py"], ["DiskImageBase.__init__", "DiskImageBase.get_file", "DefaultSegment"])
p("C10", "Directory entries survive a rewrite of the directory unchanged",
  """Encoding a directory entry that was read from an image reproduces it: on Atari DOS 2 and DOS 3.3 images every flag, the lock, the file type,
  sector count, start and the space padded name of every other file keep their place and value when a file is added or deleted.
  The bit and byte positions are those of the published formats.""",
  ["inputs"], "all directory entries with names the formats can express", "Tests write and read back a few entries, all with the same few attributes.",
  ["ataridos.py", "dos33.py"], ["AtariDosDirent", "Dos33Dirent"])
p("C11", "Sector chains read back exactly as they were linked",
  """The link bytes written into an Atari DOS data sector (file number, next sector, byte count) and the track/sector pairs and next pointer written into a
  DOS 3.3 track/sector list are exactly what the readers decode, for every sector number and file number of the format; a reader never takes link bytes
  or bytes of a following sector for file contents.""",
  ["inputs"], "all sector numbers, file numbers, byte counts and file lengths", "Tests write files whose sectors have small numbers.",
  ["ataridos.py", "dos33.py", "utils.py"], ["AtariDosWriteableSector", "AtariDosDirent.process_raw_sector", "Dos33TSSector", "VTOC.assign_sector_numbers"])
p("C12", "Space is accounted for: no sector gets two owners",
  """Writing a file takes only sectors that the image's free map shows as free and marks each of them used in the map written to the image, track/sector
  list sectors included; running out of sectors or directory entries is refused with an error. The free map is written in the place and bit order it is
  read from, and an Atari DOS free-sector count agrees with it.
  Clearing the free space overwrites exactly the free sectors.""",
  ["inputs", "histories"], "all free maps, file sizes and sequences of additions and deletions", "Tests fill a few disks and look at the result.",
  ["utils.py", "ataridos.py", "dos33.py", "diskimages.py"], ["VTOC", "AtariDosVTOC", "Dos33VTOC", "Directory.get_free_dirent"])
p("C13", "Sectors map to consecutive, non-overlapping pieces of the image",
  """For every supported geometry the valid sectors tile the image after its header: each starts where the previous one ends, short boot sectors included,
  sector numbers outside the valid range are rejected with the library's error, and reading or writing a sector touches exactly its own piece.""",
  ["inputs", "configurations"], "all sector numbers and geometries", "Tests use a few geometries and few sectors.",
  ["diskimages.py", "ataridos.py", "dos33.py"], ["BaseHeader.get_pos", "AtrHeader.get_pos", "BaseHeader.sector_is_valid", "BaseHeader.iter_sectors"])
p("C14", "Deleting removes exactly the named live file",
  """Deleting a file marks one entry, that of a file in use with the given name, as deleted and frees exactly the sectors that file's own chain names,
  track/sector lists included and holes of sparse files excluded; no other sector's allocation changes. The deleted entry keeps the name, start and length, which an undelete needs.""",
  ["inputs", "histories"], "all directories (deleted entries with the same name included) and all chains", "Tests delete files from disks without same-named deleted entries.",
  ["diskimages.py", "utils.py", "ataridos.py", "dos33.py"], ["DiskImageBase.delete_file", "Directory.find_dirent", "Directory.remove_dirent", "VTOC.free_sector_list"])
p("C15", "The tables of formats agree with each other",
  """Every MIME type used by automatic detection, by the display order, by the size/hash signatures and by the detail signatures has parsers and a
  readable name; every parser class and every known cartridge type is registered under exactly one type of its own system, and nothing in a table is unreachable or listed twice.""",
  ["programs", "configurations"], "all table entries", "Tests detect a few formats.",
  ["parsers.py", "magic.py", "signatures.py", "cartridge.py"], ["mime_parsers", "mime_parse_order", "mime_display_order", "pretty_mime", "sha1_signatures", "magic"])
p("C16", "Every cartridge layout covers its ROM exactly",
  """For each known cartridge type the fixed part and the banks tile the whole ROM without overlap or gap, fit in the 64 KB address space at their load addresses,
  and the type numbers are unique; the segments offered for a cartridge start after its header at those offsets with those addresses.""",
  ["configurations"], "all cartridge types", "Tests use a few cartridge types.",
  ["cartridge.py"], ["known_cart_types", "A8CartHeader.set_type", "BaseAtariCartImage"])
p("C17", "Saved session state restores completely",
  """Saving a session and restoring it into a fresh load of the same bytes brings back every segment (name, origin, bytes in order, page size, map width, disk image identity and the
  class specific attributes such as sector numbers or file numbers) and every annotation (comments, comment ranges, data ranges, each user style, memory map) at the same positions with the same value; state saved by
  older versions, with keys missing or named as they used to be, is accepted.""",
  ["programs", "inputs"], "all segment classes and all annotations", "Tests restore a few segments.",
  ["segments.py", "parsers.py"], ["DefaultSegment.__getstate__", "DefaultSegment.__setstate__", "DefaultSegment.serialize_session", "DefaultSegment.restore_session", "DefaultSegment.reconstruct_raw"])
p("C18", "Segments are live views, copies are independent",
  """A slice, reordering, subset or interleaving of segment data shares bytes, styles and annotations with its parent, so a write, style change or comment through any segment is seen through the image and vice
  versa at the same position, and nowhere else; the segments an image lists are such views, and after the image is grown and a segment is given the grown data they stand for the same positions;
  a copy shares neither bytes nor styles with its original.""",
  ["inputs", "histories"], "all nestings of slices and reorderings, all writes, all image types", "Tests check a few slices.",
  ["segments.py"], ["SegmentData.__getitem__", "SegmentData.get_indexed", "SegmentData.copy", "OrderWrapper"])
p("C19", "The requested run address is the one that is executed",
  """Assembling or creating a boot disk with a run address stores exactly that address, low byte first, where the target starts execution: the run vector of an Atari executable (also inside an ATR boot disk),
  the jump in front of an Apple binary, the entry of an Apple boot disk; an address outside the loaded data is refused for executables, and without one the first segment's origin is used (an Apple binary starts at its load address). Data that brings its own segment at $2E0 keeps its own run vector. The address given on the command line wins over one found in an object file.""",
  ["inputs"], "all run addresses and segment lists", "Tests use a few addresses and never a boot disk with one.",
  ["executables.py", "kboot.py", "standard_delivery.py", "__init__.py", "diskimages.py"], ["get_xex", "get_bsave", "KBootImage.create_boot_image", "StandardDeliveryImage.create_boot_image", "assemble", "boot_image"])
p("C20", "Headers are written the way they are read",
  """The headers this program writes (ATR, cartridge, Atari executable segments, Apple BSAVE, the size in a KBoot loader) decode with its own readers to the values they were written from, for all
  values the formats can express, with the magic numbers, field order and byte order of the published formats.""",
  ["inputs"], "all header values", "Tests round-trip a few images.",
  ["ataridos.py", "cartridge.py", "executables.py", "dos33.py", "kboot.py", "segments.py"], ["AtrHeader", "A8CartHeader", "get_xex", "get_bsave", "AtariDosFile.parse_segments", "Dos33BinFile.parse_segments", "BSAVESaver"])
p("C21", "No code path ends in a dangling reference",
  """Every name, module attribute, library error class, method, keyword and positional argument, format string and property that the package's code refers to exists
  and fits, so no path can end in a NameError, missing attribute, wrong argument count or unformattable message.""",
  ["programs"], "all functions and all paths, error paths in particular", "Error paths and rarely used methods are not executed by the tests.",
  ["__init__.py", "diskimages.py", "utils.py", "segments.py", "ataridos.py", "dos33.py", "errors.py"], ["atrcopy"])
p("C22", "Each command and alias does what it says and only that",
  """Every documented command and each of its aliases leads to its own operation: listing, checksums, the segment list and the free map (without --clear-empty) change neither image nor host files,
  extract only reads the image, add and assemble only add, delete only deletes, create and boot do not need an existing image.""",
  ["configurations", "inputs"], "all commands, aliases and options", "No test runs the command line.",
  ["__init__.py"], ["run"])
p("C23", "The listing shows exactly the files in use, and a name leads to one of them",
  """The file list of an Atari DOS, DOS 3.3 or SpartaDOS image consists of exactly the entries in use before the end of the directory, in directory order, with the lock, type, size and start
  stored in the entry; deleted and never used entries are not listed. Looking up a name gives the entry in use with exactly that name, also when deleted entries have the same name, and is
  refused with the library's error when there is none.""",
  ["inputs"], "all directories: every flag byte with a published meaning, every position, deleted entries in between", "Tests list a few disks whose entries have the same few flags.",
  ["ataridos.py", "dos33.py", "spartados.py", "diskimages.py"], ["AtariDosDiskImage.get_directory", "Dos33DiskImage.get_directory", "SpartaDosDiskImage.get_directory", "DiskImageBase.find_dirent"])
p("C24", "Creating an image copies exactly the template that was named",
  """Every template in the package is found by its file name and by its name without extension, whatever other templates there are; a shorter text is accepted when it is part of one name only and refused
  with the library's error otherwise. The new file consists of exactly the bytes of that template.""",
  ["configurations", "inputs"], "all templates in the package, all names, every order the host lists a directory in", "Tests create no images by name.",
  ["__init__.py"], ["get_template_images", "get_template_data", "create_image"])
p("C25", "Executables and boot disks load exactly the given data at the given addresses",
  """Whatever segments are assembled, the result, loaded the way the target machine loads it, leaves each byte of each segment at its address, the later segment winning where two overlap, and loads nothing else but the
  run vector or jump and the padding of a page or gap: Atari executable (also inside an ATR boot disk), Apple binary, Apple boot disk with its page list and sector order. On the command line `name[start:end]@addr` is exactly those bytes of the file at
  that address (address in hex unless marked with # or %, open ends as in Python), an object file contributes each of its loadable segments, and the name of the result decides between the two kinds of executable, the disk's own kind being the default.""",
  ["inputs"], "all segment lists: shared pages, overlaps, odd origins, several tracks, any order", "Tests assemble one or two well separated segments and never decode a boot disk.",
  ["executables.py", "kboot.py", "standard_delivery.py", "__init__.py", "segments.py", "diskimages.py"], ["get_xex", "get_bsave", "add_xexboot_header", "StandardDeliveryImage.create_boot_image", "get_fstbt_code", "assemble_segments"])
p("C26", "Annotations are set, found, removed and restored exactly",
  """In every segment of an image (whole, slices, reorderings and slices of those) setting, clearing, copying or repairing styles, comments and user data changes exactly the bytes named and the comments attached to those bytes of the image, and nothing
  elsewhere. Restoring the data saved for an undo gives every style and comment inside the saved ranges back as it was, and removes comments added since. Queries (ranges of a style, sections of equal style, next and previous match, comments in a range,
  sorted user data) report exactly the bytes that match, in positions of the segment asked, and cover rectangles clipped to the segment.""",
  ["inputs", "histories"], "all segments, ranges, style patterns and comments, in any order of operations", "Tests use a few ranges in segments with the image's own order.",
  ["segments.py"], ["DefaultSegment.get_comment_restore_data", "DefaultSegment.restore_comments", "DefaultSegment.clear_comment", "DefaultSegment.get_entire_style_ranges", "DefaultSegment.set_style_ranges_rect", "DefaultSegment.find_next", "DefaultSegment.copy_user_data"])
p("C27", "The segments of an image are its parts, at their places",
  """Listing the segments of an image yields the documented parts of its format in order: container header, all sectors, boot record with its header and code at their load addresses, allocation tables, directory or catalog, and each listed file.
  Each segment consists of exactly the bytes of its part, each byte of a sector segment is named by its sector and offset, the comments on the fields of allocation tables and directories are at the first byte of the field they describe,
  and exactly the tables are marked as data. A damaged file is listed as empty with the reason, beside the others. A truncated Atari executable yields its complete segments, and the remaining bytes once; a BSAVE file its data at its address, if its length agrees.""",
  ["inputs"], "all image contents of a format, densities, boot record sizes, catalog lengths, with and without container header, every length of a truncated executable", "Tests count segments of a few images and compare few of their bytes.",
  ["diskimages.py", "ataridos.py", "dos33.py", "spartados.py", "kboot.py", "segments.py"], ["DiskImageBase.parse_segments", "BootDiskImage.get_boot_segments", "AtariDosDiskImage.get_vtoc_segments", "AtariDosDiskImage.get_directory_segments", "Dos33DiskImage.get_boot_segments", "Dos33DiskImage.get_directory_segments", "SpartaDosDiskImage.get_boot_segments", "RawSectorsSegment.label", "AtariDosFile.parse_segments"])
p("C28", "A command is carried out for every file it names",
  """Without names list and crc show every file of the image in directory order, with names exactly those; a checksum is that of the file it stands beside. Extract writes each named file (with --all every file) once, under its own name, in lower case with --lower,
  in the directory given with --dir, which is made when it is missing. Add stores each host file once under its base name and with the given file type or the default of the image; delete removes each named file. A name that is not there, a file that is locked
  or a file in the way is reported and does not keep the others from being processed; with --force files in the way are replaced. Assemble and boot use every source, data and object file given, also when the option is repeated, in order.
  Every documented option works in its short and long form.""",
  ["inputs", "configurations"], "all commands, aliases, options in both forms, lists of names with missing, locked and existing files among them, on both kinds of image", "No test runs the command line.",
  ["__init__.py", "utils.py", "diskimages.py"], ["run", "list_files", "crc_files", "extract_files", "add_files", "remove_files", "assemble", "boot_image", "create_image"])
p("C30", "Files read back byte for byte",
  """A file added to an image and read again, from the same image or after saving and loading it, has the same contents (for DOS 3.3 up to padding to whole sectors), and so has every other file after any
  additions and deletions. Files put on an image by another system are read as exactly the bytes of their sectors in the order of their links. The add command stores the complete host file, extract writes exactly
  the file's contents (with --text only 0x7f and 0x9b are replaced, by tab and newline), and checksums are those of these contents.""",
  ["inputs", "histories"], "all contents, lengths and fragmentation patterns, sequences of additions and deletions", "Tests sample a few files and patterns.",
  ["diskimages.py", "ataridos.py", "dos33.py", "spartados.py", "kboot.py", "__init__.py"], ["DiskImageBase.write_file", "DiskImageBase.get_file", "AtariDosDiskImage.get_file_segment", "Dos33DiskImage.get_file_segment", "SpartaDosDiskImage.get_file_segment", "extract_files", "add_files"])
p("C31", "Automatic detection picks the right format",
  """An image that bears the marks of a supported format (Atari DOS, SpartaDOS, KBoot and boot disks with ATR header or of a standard size without, Atari executable, cartridge with header of any known type, DOS 3.3 disk, BSAVE file, ROM of a power of two)
  is identified as that format and its MIME type, whatever its contents; ProDOS disks and DCM archives are reported as unsupported. A format refuses an image that lacks one of its marks. Among the formats that accept an image, asked strictly, the first in the
  package's order is chosen; data packed with gzip, bzip2 or lzma is judged by what is inside; images listed in the signature database or carrying a special signature get the type listed for them; and data no format accepts ends in the library's error.""",
  ["inputs"], "all contents of images with the marks of a format, every single damaged mark of the list, every assignment of acceptance to the parsers (one, one and all later, none)", "Tests contain one image or so per format and hardly any near miss.",
  ["parsers.py", "__init__.py", "magic.py", "container.py", "dcm.py", "ataridos.py", "spartados.py", "kboot.py", "cartridge.py", "dos33.py"], ["guess_parser_for_mime", "guess_parser_by_size", "iter_parsers", "find_diskimage_from_data", "guess_detail_for_mime", "SegmentParser.check_image", "AtrHeader.strict_check", "BootDiskImage.check_size", "AtariDosDiskImage.get_vtoc", "SpartaDosDiskImage.get_boot_sector_info", "BaseAtariCartImage.check_size"])
# not decided here
p("C32", "Created boot disks boot",
  """A boot disk or executable created from any set of segments loads them at their addresses on the real machine or an emulator.""",
  ["inputs"], "all segment lists", "No emulator in the tests.", ["kboot.py", "standard_delivery.py"], ["create_boot_image"])
p("C33", "Operations finish in time proportional to the image",
  """Loading and changing an image takes time and memory proportional to its size.""",
  ["inputs"], "all image sizes", "Not measured.", ["segments.py"], ["SegmentData"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
