#!/usr/bin/env python3
"""Writes known_findings.json: run after a fix commit in /repo or a new finding."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
FIXED = """
C13 869a93c the cipher of a script whose first bytes end in the middle of a character was not guessed, so the text came out garbled or not at all
C05 092cf33 archives without a version field were taken for ones with the field when they hold a multiple of 256 entries
C05 efe6a63 archives without a version field of versions 771 to 780 could not be opened
C05 7e7347f the cipher of an archive whose first entry's name is stored by reference was guessed from the wrong bytes
C05 911a4b9 an archive whose first entries carry no name was guessed from what is not a name
C03 c2a35d5 supplementary characters were cut in half by WzString::from_str
C03 ded5767 directory names of the greatest length were not read
C03 740ae79 directory texts written back were encrypted with the wrong cipher
C03 32a8e4e string lengths and offsets out of range overflowed (panic)
C04 1d64f1f set_iv of an EcbDecryptor kept the grown keys of the former iv
C04 9227888 asking the all-zero iv for a key position panicked
C05 c59af84 huge patch versions overflowed (panic)
C06 4058b99 second-generation directories whose encrypted entry count is negative were refused
C16 3904a96 forged entry sizes overflowed (panic)
C07 8745af1 hashes whose rotation is zero were never found
C07 f3b05d8 the greatest hash was left out of the search
C07 6c96d7d the search ended at the first generator instead of going on with the next
C06 24ece37 short names in their own cipher were taken for plain ones
C08 4038861 nodes below canvases, convexes and raw data were not found by path without parsing
C08 d1c3de6 the payload of text and script images was not found by path without parsing
C08 96c8b19 the image of a path was found by the first '.img' in the path, not by its type
C09 44f1707 an unparsed directory or ms file could not be parsed again
C11 b38094d a link to its own ancestor made the tree contain itself (endless walks)
C17 0b44bdd walk_node held the locks of all ancestors: deadlock against a writer, and with links to what is above
C11 2b3f6be a canvas was held locked while its links were followed (deadlock), and link cycles never ended
C11 17214e6 '.' in links was looked up as a name
C12 a45f206 DXT canvases whose width is not a multiple of 4 were scrambled
C12 47fd39c BC7 canvases whose size is not a multiple of 4 were scrambled or panicked
C12 5774b34 broken canvas data panicked
C14 615a2d3 salts longer than 127 characters were misread
C14 8797c1d the key arithmetic overflowed (panic)
C14 9efab14 probing the kind of a file panicked on a salt length that does not fit
C14 9840eb5 images with non-ascii names were decrypted with the wrong key
C14 b1c1145 nodes of images in packs were not found by path without parsing
C15 ffe4341 exporting NaN and infinite numbers panicked
C15 7e4d23a null values came back as properties
C15 eb7c4ec numbers json has no form for could not be loaded back
C16 20de2c3 forged entry counts made the reader allocate gigabytes
C16 e6e690f blocks reaching over their end were read again and again
C16 97d4556 payloads reaching out of the file panicked
C16 17d5f41 deeply nested properties overflowed the stack
C16 a66f4ee name offsets in front of the file and empty images panicked
C16 a0a68e6 cut-off text images panicked
C16 bb368af unreadable entries of a directory panicked
C16 350840a directories leading back to each other never ended
C16 17adb05 links below a property replaced by one of the same name panicked
C16 35c7016 canvases of format 517 smaller than their blocks made the reader allocate for the forged size
C16 4e3f20f broken entry tables of ms files panicked
C16 2f4e4a4 cut-off images of ms files panicked
C17 8672493 resolve_inlink and resolve_outlink held the canvas or the base file locked while locking others: deadlock against lookups from the other way
C16 ed03419 the header of a cut-off file panicked
C18 a3452ff a listed directory without the wz file of its name panicked
C18 e5e5fbe files such as notes_001.txt were opened as wz files, and names that are no text panicked
C18 fee2683 directories of the same name in several parts replaced each other, and directories listed by a part only were not resolved when they were read before the part
C18 357e87d a part that cannot be read panicked
C18 74a24d3 relative paths without a directory were not resolved (panic)
C22 f927341 opening a file by a path that is not UTF-8, or that has no name (.., /), panicked
C20 c76799d the distance of vectors whose coordinates lie more than 2^31 apart overflowed (a panic, or a wrong distance)
"""
KNOWN = [
    {
        "property": "C16",
        "sig": "crash: stack overflow @ thousands of links each leading to the node with the next",
        "what": "an image of 40,000 properties n0, n1, ... where each ni holds a link x to ../n(i+1): the links resolve into a tree 40,000 levels deep, "
        "and parsing, walking, exporting or dropping it overflows a 2 MB stack (the recursion is in drop of the node tree, walk_node and the JSON export)",
    },
    {
        "property": "C17",
        "sig": "deadlock: a path asked for under a guard meets a lookup from above",
        "what": "three threads deadlock: root.read().unwrap().at_path_parsed(\"a/x.img\") holds the root and waits to write to a, "
        "a.read().unwrap().get_full_path() holds a and waits to read the root behind parse_node(&root), which waits for the first; "
        "both methods take &self, so the caller's guard stays held: not to be repaired without another interface",
    },
]
fixed = []
for l in FIXED.strip().splitlines():
    p, c, w = l.split(" ", 2)
    fixed.append(f"fixed: property={p} {c} {w}")
json.dump({"known": KNOWN, "fixed": fixed}, open(os.path.join(here, "..", "known_findings.json"), "w"), indent=2)
