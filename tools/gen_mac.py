#!/usr/bin/env python3
"""Writes mc/src/mac_gen.rs: the card macros written out with literal arguments."""
import os
R = "Two Three Four Five Six Seven Eight Nine Ten Jack Queen King Ace".split()
S = "Spades Hearts Diamonds Clubs".split()
RC, SC = "23456789TJQKA", "shdc"
comma = lambda i: f"{R[i//4]}, {S[i%4]}"
of = lambda i: f"{R[i//4]} of {S[i%4]}"
txt = lambda i: RC[i // 4] + SC[i % 4]
o = ["// written by tools/gen_mac.py", "use poker::{card, cards, Card, ParseCardError};", "",
     "pub type Const = (&'static str, &'static [u8], &'static [Card]);",
     "pub type Parsed = Result<Card, ParseCardError>;", ""]
def lst(ids): return "&[" + ",".join(map(str, ids)) + "]"

def table(name, rows):
    o.append(f"pub static {name}: &[Const] = &[")
    for mac, ids in rows:
        body = mac if mac.startswith("cards!") else f"[{mac}]"
        o.append(f"    ({mac!r}, {lst(ids)}, &{body}),".replace("'", '"', 2))
    o.append("];\n")

table("ONE", [(f"card!({f(i)})", [i]) for i in range(52) for f in (comma, of)]
      + [(f"cards!({f(i)}{t})", [i]) for i in range(52) for f, t in ((comma, ""), (comma, ";"), (of, ""), (of, ","))])
pairs = [(a, b) for a in range(52) for b in range(52)]
table("PAIRS_NAMES", [(f"cards!({comma(a)}; {comma(b)}{';' if (a + b) % 2 else ''})", [a, b]) for a, b in pairs])
table("PAIRS_OF", [(f"cards!({of(a)}, {of(b)}{'' if (a + b) % 2 else ','})", [a, b]) for a, b in pairs])
runs = [[(s + step * k) % 52 for k in range(n)] for n in range(1, 53) for s, step in ((n, 1), (51 - n, 51), (7 * n % 52, 11))]
table("LISTS", [(f"cards!({'; '.join(map(comma, r))}{t})", r) for r in runs for t in ("", ";")]
      + [(f"cards!({', '.join(map(of, r))}{t})", r) for r in runs for t in ("", ",")])

o.append("/// The same forms where the value is made at run time.")
o.append("pub fn at_run_time(f: &mut dyn FnMut(&str, &[u8], &[Card])) {")
for i in range(52):
    o.append(f'    let c = card!({comma(i)}); f("card!({comma(i)})", &[{i}], &[c]);')
    o.append(f'    let c = card!({of(i)}); f("card!({of(i)})", &[{i}], &[c]);')
for r in runs[::5]:
    o.append(f'    let c: [Card; {len(r)}] = cards!({"; ".join(map(comma, r))}); f("names", {lst(r)}, &c);')
    o.append(f'    f("of", {lst(r)}, &Vec::from(cards!({", ".join(map(of, r))})));')
o.append("}\n")

o.append("/// String literals.")
o.append("pub fn strings(f: &mut dyn FnMut(&str, &[u8], Vec<Parsed>)) {")
for i in range(52):
    o.append(f'    f("card!(\\"{txt(i)}\\")", &[{i}], vec![card!("{txt(i)}")]);')
    o.append(f'    f("cards!(\\"{txt(i)}\\")", &[{i}], cards!("{txt(i)}").collect());')
for r in runs:
    if len(r) > 1:
        q = ", ".join(f'"{txt(i)}"' for i in r)
        t = "," if r[0] % 2 else ""
        o.append(f'    f("string list", {lst(r)}, cards!({q}{t}).collect());')
    o.append(f'    f("one string", {lst(r)}, cards!("{" ".join(map(txt, r))}").collect());')
o.append("}\n")

o.append("/// String lists of every length whose items are expressions.")
o.append("pub fn string_list(s: &[&str]) -> Vec<Parsed> {\n    match s.len() {")
for n in range(2, 53):
    o.append(f"        {n} => cards!({', '.join(f's[{k}]' for k in range(n))}{',' if n % 2 else ''}).collect(),")
o.append('        n => unreachable!("{n}"),\n    }\n}\n')
o.append("pub fn string_list_owned(s: &[String]) -> Vec<Parsed> {\n    match s.len() {")
for n in range(2, 8):
    o.append(f"        {n} => cards!({', '.join(f's[{k}].clone()' for k in range(n))}{'' if n % 2 else ','}).collect(),")
o.append('        n => unreachable!("{n}"),\n    }\n}\n')

o.append("pub fn join(s: &[&[Card]], trailing: bool) -> Box<[Card]> {\n    match (s.len(), trailing) {")
for n in range(2, 13):
    a = ", ".join(f"s[{k}]" for k in range(n))
    o.append(f"        ({n}, false) => poker::box_cards!({a}),")
    o.append(f"        ({n}, true) => poker::box_cards!({a},),")
o.append('        n => unreachable!("{n:?}"),\n    }\n}')
open(os.path.join(os.path.dirname(__file__), "../mc/src/mac_gen.rs"), "w").write("\n".join(o) + "\n")
