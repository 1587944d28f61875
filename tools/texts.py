TECH = {
 "C01": "abstract interpretation with exception injection; content-equality of image storage at every exit",
 "C02": "abstract interpretation of each command with effect tracking (host-write effects)",
 "C03": "path-sensitive dataflow: exists(path) facts at host write sites",
 "C04": "path-sensitive typestate: lookup/absent facts at image writes and deletes",
 "C05": "taint analysis from names on the image to host paths, with sanitizers",
 "C06": "typestate clean/dirty/saved over each command by abstract interpretation",
 "C07": "loop termination by pointer-chase detection and visited-set / counter witnesses",
 "C08": "exception-flow analysis over class-hierarchy call graph",
 "C09": "effect (store) analysis by abstract interpretation with storage identities",
 "C10": "value provenance by abstract interpretation: entry decoder composed with encoder, directory rewrite on abstract disks",
 "C11": "bit-level value provenance of sector link writers composed with readers",
 "C12": "abstract interpretation (constant structures, unknown contents) with store tracking; accounts compared with an independent decoder of links and map",
 "C13": "symbolic polynomial comparison of sector positions, sizes and bounds",
 "C14": "abstract interpretation (constant structures, unknown contents) with store tracking; freed sectors compared with an independent decoder of the chain",
 "C15": "constant propagation and cross-reference of format tables",
 "C16": "constant propagation and interval tiling of cartridge layouts",
 "C17": "abstract interpretation of save composed with restore: attribute and annotation provenance on abstract segments",
 "C18": "alias (storage identity) analysis of segment views and copies",
 "C19": "value-flow and bit provenance of the run address",
 "C20": "bit-level value provenance of header writers composed with readers",
 "C21": "reference resolution: scopes, class hierarchy, signatures, format strings, property setters",
 "C23": "abstract interpretation of the directory readers on constant directories covering every flag byte, against an independent decoder",
 "C24": "constant propagation through the template lookup over the enumerated templates; data flow from template to new file",
 "C25": "abstract interpretation of the writers with symbolic data, decoding of the derived bytes as the target loads them; constant propagation through the options",
 "C26": "abstract interpretation of the annotation operations over unknown styles (term equality per byte); constant propagation of queries over style patterns",
 "C27": "abstract interpretation of parse_segments on abstract disks (constant structures, unknown contents); segment bytes, addresses, labels and comments compared with an independent table of the format's parts",
 "C30": "value provenance of file contents by abstract interpretation of writer and reader on abstract disks; data flow in the command layer",
 "C28": "abstract interpretation of run() for command lines that use every command and option, with the program's own option declarations; effect sequence compared with the documented one",
 "C31": "abstract interpretation of every parser on abstract images (marks constant, contents unknown); interpretation of the search with parsers that accept by assignment",
 "C22": "abstract interpretation of each command and alias, effect signatures",
}
_N = ("Static analysis of the source on every run; a definite violation is reported with the construct, what the analysis cannot decide "
      "is counted as undecided in the evidence and not reported. ")
NOTE = {p: _N for p in TECH}
NOTE["C15"] = "All rows of all tables are enumerated (exhaustive); the tables are evaluated by constant propagation, not by importing the package. "
NOTE["C16"] = "All rows of the cartridge table are enumerated (exhaustive), with and without header. "
for _p in ("C10", "C12", "C14"):
    NOTE[_p] += "Contents of the image and of files are unknown bytes; directories, free maps and chains are a bounded family of shapes. "
NA = {
 "C32": "depends on the 6502 loaders (binary blobs) and the machines' boot ROMs, which are not in the source; the addresses stored for them are C19",
 "C33": "a complexity bound over runtime sizes; loops that may not end at all are C07",
}
