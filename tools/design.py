#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, meta.py and seeded/*/meta.json."""
import glob
import json
import os

from meta import META, RACE

EXTRA={
'C01':'Two-sided: encode a generated message, validate, decode, compare field by field (reflection over dictionary names), encode again, compare bytes. The codec is compared with itself here; C02 and C03 compare it with the reference.',
'C02':'The encoded frame must equal the reference encoder\'s output. Catches symmetric mistakes (fields swapped in both directions) that round trips cannot see.',
'C03':'The reference encoder plays the foreign sender. The frame is decoded into a fresh object through the dialects and into a used one through Read; values are compared with the bytes; then the frame is overwritten and the values compared again.',
'C04':'Lookups of metadata and decoding for used IDs, their neighbours, and whole ranges; compared with the dictionary. Per-definition checks (lengths of an empty message, identity) run on every hit.',
'C05':'Verdict against the reference validator: accepted iff no reason applies; otherwise the error must be one of the applicable ones.',
'C06':'Metamorphic: a valid frame plus an error pattern the CRC must detect. Lengths, flags and IDs are left out because changing them changes which frame is meant.',
'C07':'The delivered list must equal the reference scan of the whole stream, under any splitting; the close reason must be the transport\'s.',
'C08':'As C07 with the scan that reports invalid candidates.',
'C09':'History invariant: each frame is compared with its expected bytes when it arrives and again after the stream has ended; every second frame is overwritten in between (spare capacity included); the log must equal the traffic. Some receivers close the stream midway. The phase `long` has up to 70,000 frames.',
'C10':'A recording transport; the writes it accepted must equal the frames sent, up to the failing write.',
'C11':'Stateful: operations in steps, some concurrent; after each step (settled) a model gives causes that must have closed the stream, may have, or cannot. Close count of the transport, read channel, loops, waiting senders, reason, and its stability are compared. Run four times per case (select order is random), 400 times in replay.',
'C12':'Real scheduler, race detector; in addition all observations are checked (frames whole, at most once, reason always there after the close).',
'C13':'Histories over one checksum object against the bitwise CRC.',
'C14':'Each of the 40 text fields against a byte-array model, embedded in a message whose other fields must stay.',
'C15':'Frames with IDs the list does not define; error, type, ID, version, payload, independence, re-encoding, rendering.',
'C16':'Accessors against direct indexing into the bytes, rendering searched for the values, frame compared before and after.',
'C17':'Real loopback sockets, operations with a model of the first sender; reads and writes with deadlines. A failure counts only if its replay fails too.',
'C18':'Robustness: whatever happens, no panic, and the specified errors for the specified causes. The thorough tier adds native coverage-guided fuzzing of the same checker (see below).',
'C19':'Rendering parsed as lines; name and value must be on one line; extension lines exactly if marked; no `%!`.',
'C20':'Lists mixing bundled and stub dialects that count their calls and answer with marks, known errors or unknown.',
'C21':'Versions near, far and congruent to 1 and 2; refusals and their side effects on reused objects.',
'C22':'Everything given is compared with a copy after every operation, results are written into and everything is compared again.',
'C23':'Own encoder for the one variable-length message; lengths around 0, 249, 255.',
'C24':'Real scheduler, race detector, results compared with the reference for each goroutine.',
'C25':'Two streams over two in-memory transports, virtual time, both directions; the lists received must equal the lists sent.',
'C26':'A generated user dialect implementing the exported interfaces; reference encoder and validator with its metadata.',
'C27':'Standard output is redirected to a file per case and the lines are compared as a multiset of the four values; the wording is free.',
'C28':'As C17 with concurrency and the race detector.',
'C29':'Chains decode, (change values,) encode, each compared with the reference encoder.',
'C30':'Relays over net.Pipe in virtual time; the frames at the far end must equal the reference scan at the near end.',
'C31':'The two helpers against their definition; slices with spare capacity to see writes beyond the end.',
'C32':'Calls back into the stream from every place the stream calls out to; virtual time turns a deadlock into an immediate failure.',
'C33':'The stream is fed in bursts and must have delivered, at each silence, exactly what the live scanner says.',
'C34':'The program is built from the tree and run once per case; what it prints, without time stamps and spacing, must be the renderings of the frames the reference scan finds in the datagrams, in order. A last frame behind padding marks the end. One process at a time, as the port is fixed; a failure counts only if its replay fails too.',
'C35':'Gates let a known number of frames through; at each rest the number delivered and written must be exactly that, and what was taken beyond it is bounded.',
'C36':'Several streams in one bubble, each compared with its own reference scan and its own list of frames sent.',
}

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)


def text(name):
    with open(os.path.join(here, "design", name)) as f:
        return f.read()


with open(os.path.join(root, "DESIGN.md"), "w") as out:
    out.write(text("head.md"))
    for k, m in META.items():
        out.write("\n### %s %s\n\n" % (k, m["title"]))
        out.write("%s %s%s\n" % (EXTRA[k], m["rule"], " Race detector on." if k in RACE else ""))
        out.write("Bounds: %s. Cost and reach: %s\n" % (m["text"], m["note"]))
        out.write("Beyond tests: %s\n" % m["why"])
    out.write(text("tail.md"))
    caught = {}
    try:
        for line in text("caught.txt").splitlines():
            s, *checks = line.split()
            caught[s] = checks
    except FileNotFoundError:
        pass
    out.write("\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n")
    for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
        s = os.path.basename(os.path.dirname(f))
        with open(f) as g:
            m = json.load(g)
        out.write("| %s | %s | %s; needs %s | %s |\n" % (s, m["property"], m["what_it_breaks"], m["needs"], " ".join(caught.get(s, ["?"]))))
