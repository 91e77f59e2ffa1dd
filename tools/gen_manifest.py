#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('grammar-directed generation (proptest), differential against a reference interpreter', 'Random sentences and mutations of a fixed family of derived types and of randomly generated programs; bounded in size.'),
 'C02': ('round-trip property over grammar-generated sentences (proptest)', 'Tokens and text round trip of parsed values; types and sentences are sampled.'),
 'C03': ('differential against a reference model of the furthest-alternative rule (proptest)', 'Sampled types and broken sentences; ties in the rule accept any tied alternative.'),
 'C04': ('differential against a reference interpreter, rest of the stream compared (proptest)', 'Sampled types, sentences and continuations.'),
 'C05': ('model-based generation for optional parts and markers (proptest)', 'Sampled prefixes, bodies and operation inputs.'),
 'C06': ('model-based generation of sequences with parse-attempt counting (proptest)', 'Sampled sequences, up to some thousand items.'),
 'C07': ('stateful model-based testing of Separated against a list model (proptest)', 'Sampled operation histories.'),
 'C08': ('model-based generation of operator chains (proptest)', 'Sampled chains, up to some ten thousand operands.'),
 'C09': ('model-based generation of groups, differential against a reference (proptest)', 'Sampled delimiters, contents and left-overs.'),
 'C10': ('round-trip over values, exhaustive for bool, byte and char (proptest)', 'Exhaustive for bool, u8 and char; sampled with boundary bias elsewhere.'),
 'C11': ('generation of spellings with known value; boundary-biased (proptest)', 'Sampled spellings.'),
 'C12': ('round-trip over conversions (proptest)', 'Sampled values and spans.'),
 'C13': ('metamorphic and differential comparison of pairs against raw values and content dumps (proptest)', 'Sampled pairs biased to near-equality.'),
 'C14': ('generation of words against the declared sets; exhaustive over short words (proptest)', 'Exhaustive for short words and all Rust keywords; sampled otherwise.'),
 'C15': ('round-trip of random token trees through the formatter (proptest)', 'Sampled token trees.'),
 'C16': ('differential against a reference layout; injected sink failures at every write (proptest)', 'Sampled token trees; every write boundary of each.'),
 'C17': ('differential against an offset model recorded while the text is generated (proptest)', 'Sampled texts with multi-byte characters and line endings.'),
 'C18': ('differential of spans against the source token positions (proptest)', 'Sampled types and sentences; setters over all leaf types.'),
 'C19': ('fuzzing of all types with text and token streams under a panic oracle (proptest)', 'Sampled inputs of bounded nesting.'),
 'C20': ('stateful model-based testing against Vec models (proptest)', 'Sampled operation histories.'),
 'C21': ('law-based testing of each combinator against a direct model (proptest)', 'Sampled values, iterators and call sequences.'),
 'C22': ('generated type definitions compiled and run (proptest-driven program generation)', 'Sampled definitions plus a fixed list of documented shapes; the compiler and the run of the program are the oracle.'),
 'C23': ('differential between the entry points on generated inputs (proptest)', 'Sampled types and inputs.'),
 'C24': ('metamorphic relation: enclosing runs of tokens in invisible groups changes nothing (proptest)', 'Sampled types, streams and placements of groups.'),
 'C25': ('differential between the inside and the outside of the compiler, which serves generated inputs from within a macro expansion (proptest)', 'Sampled types and streams; the installed stable compiler.'),
    'C26': ('generated programs compiled twice, with each expression as written and emitted through AST nodes, as a metamorphic relation decided by constant evaluation (proptest)', 'Sampled programs of a small expression language; the installed stable compiler.'),
    'C27': ('generated programs over randomly composed helper types and arguments with random capabilities, against a model of what has to be available; the compiler decides (proptest)', 'Sampled compositions; the installed stable compiler. Only what has to be available is checked, more may be.'),
    'C28': ('differential of debug texts against a model value of standard formatting builders (proptest)', 'Sampled values of 24 compositions, nine styles.'),
}
checks = []
for k, (t, n) in T.items():
    if not any(os.path.exists(f'{R}/harness/{d}/{k.lower()}.rs') for d in ('src/bin', 'face/src')):
        continue
    checks.append({'property': k, 'quick_cmd': f'bash check.sh {k} quick', 'thorough_cmd': f'bash check.sh {k} thorough',
                   'technique': t, 'level': 'exploration', 'level_note': n})
na = [{'property': k, 'reason': 'check under construction'} for k in T if not any(c['property'] == k for c in checks)]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{R}/MANIFEST.json', 'w'), indent=1)
open(f'{R}/MANIFEST.json', 'a').write('\n')
