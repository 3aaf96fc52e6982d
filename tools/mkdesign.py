#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, tools/props.py and /verif/seeded (+ tools/seed_results.json)."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, T)
from props import PROPS, NOT_APPLICABLE
ROOT = os.path.dirname(T)
HOW = dict(
C01="Writes a fully symbolic integer of each of the ten types in each of five contexts (alone, behind a neighbour, in a wide array, value of a narrow and a wide dict), finishes, decodes and asserts the number read back. Oracle: the input variable itself. All 2^64 values at once; a test samples a few.",
C02="As C01 with the bit patterns of f32/f64 as variables; NaN is compared as NaN-ness (payload and sign of a NaN are outside the statement). Options nest.",
C03="Lengths are enumerated by path forks (all that matter for the header and varint boundaries), the bytes are symbolic and restricted to valid UTF-8 for strings. Oracle: the bytes written.",
C04="All arrays of up to n elements of eight kinds, nested trees, and one symbolic 64-bit index for get; iteration, index and get must agree with the list written.",
C05="Sets of keys with symbolic bytes in any writing order; a symbolic probe key decides `None exactly for other strings`; iteration and len against the list of pairs written. Wide dicts too.",
C06="Content behind a filler of every even length around each pointer limit; the distances are forks, the contents symbolic. All mixtures of key kinds (inline, pointed-to, shared) and value kinds.",
C07="Counts on both sides of every count encoding boundary, first, middle and last element symbolic.",
C08="Every byte of the input is a variable: the decoder runs on all byte strings of each length at once. The input lies in an allocation of exactly its size, so that any read beyond it is an out-of-bounds violation. What is returned must lie inside. Serde entry points run over the same inputs.",
C09="As C08, then every accepted document is walked with every safe accessor, each access checked for bounds, use-after-free and panic; also copies to mutable and re-encoding.",
C10="Every sequence of encoder calls (legal and illegal) up to the bound is one path; a model of the encoder's documented states predicts accept/reject for each call, and the output is compared with that of an encoder given only the accepted calls.",
C11="Every history, finished at every point, behind 0-3 bytes of foreign content; the output must be accepted by the validating decoder and equal the model's tree with open collections closed.",
C12="Histories of insertions with symbolic keys against a list model; tables filled up to the limit; lookups with symbolic keys.",
C13="Tables built as in C12 saved and restored; arbitrary bytes and arbitrary accepted documents given to the restoring functions.",
C14="Dicts with symbolic keys written without and with shared keys of several table states, read through the scope; both must agree with the list of pairs, for symbolic probe keys, also from mutable copies.",
C15="Histories of push/set/insert of collections/remove/nested edits with symbolic index and value against a Vec model; clones diverge.",
C16="Histories of insert/remove/nested edits with symbolic keys against a list-of-pairs model with and without a shared-key table; clones and copies diverge.",
C17="Documents of all encoder histories (contents symbolic), of all scalars, of arbitrary accepted bytes: the copy is compared with the source element by element, then edited and the source compared with its state before.",
C18="As C17 with write_fleece into new encoders (as root, in arrays and dicts, with and without shared keys), compared element by element; a second re-encoding must give identical bytes.",
C19="Types of every serde shape with symbolic contents, serialized and deserialized, equality against the input; with and without shared keys.",
C20="Documents of arbitrary bytes and of encoder histories deserialized into types of every shape: an error or a value that re-serializes to what was in the document; unsupported inputs must be refused.",
C21="Histories of creating, dropping and removing scopes over data of symbolic sizes with reuse of freed blocks by the allocator model, lookups at every address of interest against a list model.",
C22="Every route to an owned value, then every order of dropping source, scope and clones; the engine's heap has no reuse unless asked for and reports use after free, double free and - by counting live allocations - leaks.",
C23="Every accepted scalar of 2-10 arbitrary bytes: all accessors against a specification written in terms of the raw bits (SMT floating point for conversions).",
C24="Every Encodable with symbolic contents written into buffers of every size from 0 to beyond the announced one, wide and narrow: bytes outside must be untouched, result Some(announced size, 4 if padded) or None.",
C25="Arbitrary accepted bytes and finished output: same position from checked and unchecked functions.",
C26="The finished bytes of symbolic values, histories, key sets and sizes are parsed by an independent reader of the format (harness/src/wire.rs, written from the format description without looking at the decoder), which must find exactly what was written, canonical sizes, alignment, key order and the root.",
C28="Documents (symbolic scalars, narrow and wide, shared and plain keys, encoder histories, large collections with jumps of any distance) are built by the real encoder; every way of reading is compared with get by address, so that not only equal values but the same element must come out. Owned values are compared against addresses for equality and order laws.",
C29="The formatting code of the crate and of the standard library behind it is executed (elsewhere it is stubbed) with symbolic values; the text is compared with one composed by the harness from the values read, integers by parsing the digits back. Accepted byte strings are formatted as a whole, so that every panic and stray read on the way is found.",
C30="The real macro is expanded in the harness for twelve shapes (checked so on each run, against the current macro) with symbolic embedded values; the result is compared element by element with the document from explicit encoder calls, and copied to a mutable collection.",
)
rows = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
o = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## Properties", ""]
for r in rows:
    i = r["id"]
    o.append(f"### {i} {r['title']}"); o.append("")
    if i not in PROPS: o += [f"Not applicable: {NOT_APPLICABLE.get(i)}", ""]; continue
    p = PROPS[i]; b = p["bounds"]
    o.append(HOW[i]); o.append("")
    if isinstance(b, str): o.append(f"Bounds: {b}.")
    else: o += [f"Bounds (quick): {b['quick']}.", f"Bounds (thorough): {b['thorough']}."]
    for a in p.get("assumptions", []): o.append(f"Outside: {a}.")
    o.append("Harnesses: " + ", ".join(sorted({h["name"] for h in p["harnesses"]})) + f" (harness/src/{i.lower()}.rs).")
    o.append("")
res = {}
f = os.path.join(T, "seed_results.json")
if os.path.exists(f): res = json.load(open(f))
o += ["## Planted bugs", "", "Each lies in /verif/seeded/<id> with a demonstration; none is visible to the checks. `caught by` is the result of the quick tier.", "",
      "| bug | property | needs | caught by |", "|---|---|---|---|"]
d = os.path.join(ROOT, "seeded")
for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(os.path.join(d, n, "meta.json")))
    o.append(f"| {n} | {m['property']} | {m['needs'].replace('|', '/')} | {res.get(n, '?')} |")
o += ["", open(os.path.join(T, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o))
