#!/usr/bin/env python3
"""
Writes the generated sections of DESIGN.md: for each property, the oracle, functions, bounds, assumptions.

    python3-vt tools/design.py
"""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import vcore

ORACLE = {
    'P01': 'slices of the input list, by z3 terms for N',
    'P02': 'for each pair of outputs, order of keys; stability by tagging; permutation by identity of terms',
    'P03': 'first occurrences, computed on terms',
    'P04': 'reference windows (lists of indexes); predicates are symbolic booleans per item',
    'P05': 'a fold written with terms, per group; operators with different algebraic properties (+, max, non-commutative)',
    'P06': 'the transformed list, one definition per operator; cast by Python int/str/float',
    'P07': 'start + i * step as a term; padding digit by digit; infinite streams are cut by head',
    'P08': 'double loop over both inputs, comparing terms',
    'P09': 'multiplicities of each distinct item, as sums of 0/1 terms',
    'P10': 'membership as a disjunction of equalities',
    'P11': 'the first branch whose (symbolic) threshold holds, computed as nested ite',
    'P12': 'groups of consecutive items, padded with None',
    'P13': 'f | g equals g applied to the collected output of f; end of stream counted by a spy operator at the end',
    'P14': 'the first execution of a fresh copy',
    'P15': 'totality: result or marcel exception; what is accepted is printed and parsed again to the same pipeline',
    'P16': 'the output of the operator on the items that do not fail, with one Error for each that does, in place',
    'P17': 'an independent binder of flags and arguments',
    'P18': 'the string the harness quoted, character by character',
    'P19': 'at each simulated step at most one live owner; after any crash the workspace can be opened',
    'P20': 'a model of workspaces (dicts); every command of a history compared with it',
    'P21': 'contents of the workspace before or after, at each crash point or I/O failure',
    'P22': 'a model of scopes (dicts); failing commands leave it unchanged',
    'P23': 'multiset of what the instances output, order within an instance; all schedules of messages',
    'P24': 'the rows, lines and values written; RFC 4180 reader and writer of the harness',
    'P25': 'parsing the completed command line gives the name offered; what is offered is what exists and has the prefix',
    'P26': 'a model of job states; the real processes simulated, signals at any pause',
    'P27': 'a model of the stack; os.getcwd compared after each command',
    'P28': 'a listing computed by os.walk-like code of the harness from the description of the tree, not from the tree',
    'P29': 'the chunks written, per stream, in order; no deadlock in any schedule of the simulated pipes',
    'P30': 'a table of all operators, transcribed from their usage; equal meaning = equal operator states',
    'P31': 'the same command with the value written literally',
    'P32': 'the command line of the same call, run in the same simulated environment',
    'P33': 'a list',
    'P34': 'the pipeline typed at the prompt',
    'P35': 'a list of commands, numbered; what the (simulated) editor returned',
    'P36': 'the commands in order; exit status; configuration',
    'P37': 'the calls a driver must receive (execute, fetch, commit, rollback), in order',
    'P38': 'the commands each host must receive (argv, stdin), items tagged by host; a simulated host runs the real marcel.op code',
    'P39': 'files before, after, at each crash point; all configurations and histories must be in one of both',
    'P40': 'predicates on the simulated processes',
    'P41': 'the text without escape sequences equals the plain text; each character has the color the scheme gives to its kind; words of help in order, lines not longer than the console',
    'P43': 'the structure from which the text was made, by code of the harness independent of the json module; the json module for formatted text',
    'P42': 'the output of the same pipeline not traced; one line per call of an operator method',
}

props = [json.loads(line) for line in open(os.path.join(VERIF, 'properties.jsonl'))]
index = json.load(open(os.path.join(VERIF, 'harness', 'index.json')))
out = []
for p in props:
    pid = p['id']
    vcore.load(pid)
    x = vcore.PROPERTIES[pid]
    bounds = x.bounds if isinstance(x.bounds, dict) else {'quick': x.bounds}
    out.append(f'### {pid} {p["title"]}')
    out.append('')
    out.append(f'- Harness `harness/{index[pid]}.py`, {"symbolic strings and integers" if x.strings else "symbolic integers and choices"}; '
               f'{len(x.cases("quick"))} cases quick, {len(x.cases("thorough"))} thorough.')
    out.append(f'- Code executed: {", ".join(x.functions)}.')
    out.append(f'- Oracle: {ORACLE[pid]}.')
    out.append(f'- Bounds: {bounds["quick"]}. Thorough: {bounds.get("thorough", "the same")}.')
    if x.assumptions:
        out.append(f'- Assumed, or simulated: {"; ".join(x.assumptions)}.')
    out.append(f'- Why not tests: {p["why_tests_cant"]}')
    out.append('')
fixed = []
for line in open(os.path.join(VERIF, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
    if m:
        fixed.append(f'- {m[1]} ({m[2]}): {m[3]}')
    m = re.match(r'known: property=(\S+) case=(.*?) :: (.*)', line)
    if m:
        fixed.insert(0, f'- **known finding**, {m[1]}: {m[3]} (case {m[2]})')
seeded = ['| change | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    m = json.load(open(os.path.join(VERIF, 'seeded', s, 'meta.json')))
    seeded.append(f'| {s} | {m["property"]} | {m["needs"]} | {m.get("caught_by", m["property"])} |')

path = os.path.join(VERIF, 'DESIGN.md')
text = open(path).read()
for name, lines in (('properties', out), ('defects', fixed), ('seeded', seeded)):
    block = f'<!-- {name}: generated by tools/design.py -->\n\n' + '\n'.join(lines).rstrip() + f'\n\n<!-- end of {name} -->'
    text = re.sub(f'<!-- {name}: .*?<!-- end of {name} -->', lambda _: block, text, flags=re.S)
open(path, 'w').write(text)
