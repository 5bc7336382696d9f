#!/usr/bin/env python3
"""Writes MANIFEST.json (committed); run by hand after changing properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
tech = {
 'C01': 'property-based testing: random item sets against a brute-force box model, plus systematic degree/size/build sweep',
 'C02': 'property-based testing: random item sets against brute-force pairs',
 'C03': 'property-based testing: random pairs of indexes against brute-force pairs',
 'C04': 'property-based testing: brute-force model and distance oracle',
 'C05': 'property-based testing: tree walk invariants over random and extreme item sets',
 'C06': 'property-based testing: reference Hilbert curve model',
 'C07': 'property-based testing: interval-lattice model, algebraic laws',
 'C08': 'property-based testing: interval model',
 'C09': 'property-based testing: exact integer oracle on lattices, exhaustive small grids',
 'C10': 'property-based testing: exact integer intersection oracle, exhaustive small grids, metamorphic symmetry',
 'C11': 'property-based testing: exact integer oracle, exhaustive small grids',
 'C12': 'property-based testing: exact integer oracle, exhaustive small grids',
 'C13': 'property-based testing: exact integer ring-relation oracle, exhaustive small grids',
 'C14': 'property-based testing: exact integer ring-relation oracle, exhaustive small families',
 'C15': 'property-based testing: reference set model',
 'C16': 'property-based fuzzing over bit patterns and stretched shapes: totality and invariants',
 'C17': 'property-based testing: metamorphic relations',
 'C18': 'property-based testing: counting model',
 'C19': 'property-based testing: differential (wrapped against concrete)',
 'C20': 'property-based testing: min/max model',
 'C21': 'property-based testing: sequence model',
 'C22': 'property-based testing: exact monotone-chain hull oracle, exhaustive small rings',
 'C23': 'property-based testing: print/parse round trip',
 'C24': 'grammar-based fuzzing: own grammar reader and differential against the wkt crate',
 'C25': 'property-based testing: algebraic laws and exact oracle',
 'C26': 'property-based testing: metamorphic (whole against parts)',
 'C27': 'property-based testing: exact integer point location',
 'C28': 'property-based testing: brute-force exact contacts against index and segment test',
 'C29': 'property-based testing: operation-counting coordinate against a walk of the tree',
 'C30': 'property-based testing: differential (again, after other questions, edited in place, threads, precisions, text, index modes)',
 'C31': 'property-based testing: structural equality model over all ways to build a value',
}
ev = 'Evidence by search, not proof: fixed-seed generated cases (counts and classes in the evidence file) against an oracle that shares no code with the tree; a run is a pure function of VERIF_SEED and the code. '
note = {
 **{k: 'Boxes are compared as IEEE numbers; f32 and f64.' for k in ('C01','C02','C03','C04','C05','C06')},
 **{k: 'Validity is judged only where float arithmetic is exact (lattices) or the shape has no near-contacts.' for k in ('C11','C12','C13','C14','C17')},
 'C07': 'Any float values; NaN only where the statement speaks of it.', 'C08': 'Finite and NaN floats.',
 'C09': 'Lattices where determinants are exact; lengths within rounding.',
 'C10': 'Lattices where cross products are exact; crossing points within rounding; clearly non-parallel segments otherwise.',
 'C15': 'Zeros of both signs are equal.', 'C16': 'Any bit pattern; hangs and aborts are caught by a supervising process.',
 'C18': 'End points are not NaN.', 'C19': 'Polygons with holes but no exterior are left out.',
 'C20': 'An axis with only NaN is not judged.', 'C21': 'Lengths within 1e-12 (f64) or 1e-4 (f32).',
 'C22': 'Exact lattices, or shapes without near-collinear corners.',
 'C23': 'Two-dimensional dialect with parenthesised multipoint members.',
 'C24': 'Trusts the wkt crate as reference outside the edited-token check, which has its own reader.',
 'C25': 'Exact on small integers, laws on arbitrary floats.',
 'C26': 'Any floats, rounding ones included; of large collections neighbours and box pairs are tried.',
 'C27': 'Located only on exact lattices, to 1/1024 of a step.',
 'C28': 'Lattices where products are exact.',
 'C29': 'Work means operations on coordinates; slack factor 4.',
 'C30': 'Lattices exact in both precisions; order of results not compared.',
 'C31': 'Any float values; boxes without NaN.',
}
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
m = {
 'version': 1,
 'setup_cmd': 'bash check.sh build',
 'checks': [
  {
   'property': p['id'],
   'quick_cmd': 'VERIF_TIER=quick bash check.sh ' + p['id'],
   'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
   'evidence_file': 'evidence/%s.json' % p['id'],
   'technique': tech[p['id']],
   'level': 'exploration',
   'level_note': ev + note[p['id']],
  } for p in props
 ],
 'not_applicable': [],
 'notes': 'No hooks: everything is reached through the public API. bash check.sh replay FILE re-runs a saved case. known_findings.json lists what was found in the tree (all repaired).',
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
