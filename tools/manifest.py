#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import P       # noqa: E402

BASE = ('Decides the property from the source on every path the abstract '
        'interpreter enumerates; loops are unrolled to a stated bound and '
        'values it cannot follow are listed as undecided in the evidence, '
        'never reported. Trusts the engine in jsa/ and its models of builtins '
        'and the standard library. ')

CHECKS = {
    'C01': ('path-sensitive ownership (alias) analysis of the fork state',
            'Exact for state kept in class attributes of the default fork.'),
    'C02': ('path-sensitive value-flow analysis of the fork parameter',
            'Covers every API function and default (de)serializer.'),
    'C03': ('path-sensitive value-flow analysis of dump options',
            'Options of custom serializers are represented by one unknown option.'),
    'C04': ('path-sensitive value-flow analysis of load options',
            'Options of custom deserializers are represented by one unknown option.'),
    'C05': ('cache-effect analysis: reads-state/writes-state/clears per cached function',
            'Caches are those made with the package\'s cache decorator or functools.'),
    'C06': ('taint (mutation-root) analysis of inputs and option containers',
            'User code called back is outside; a mutation through a value the engine cannot follow is not seen.'),
    'C07': ('exception-flow analysis of the entry points',
            'Any call into user code, (de)serializers or json may raise anything.'),
    'C08': ('exception-flow and loop-body analysis of the per-part handlers',
            'The default object serializer and list deserializer.'),
    'C09': ('must-pass-through analysis: validate before every return',
            'Values built by deserializers called directly by user code are outside.'),
    'C10': ('guard (dominating condition) analysis for None',
            'The admitted types are read from the path conditions.'),
    'C11': ('guard analysis of the constructor call',
            'Restricted to class instances, as the property is.'),
    'C12': ('symbolic partition proof by term rewriting, join-before-read typestate, marker flow',
            'Trusts the process and thread classes to run what they are given.'),
    'C13': ('writer/reader term rewriting per codec pair',
            'Trusts strftime/strptime and str/constructor pairs of the standard library.'),
    'C14': ('type inference of returned terms',
            'The results of nested dumps are JSON-typed by induction.'),
    'C15': ('guard and value-flow analysis of result insertions and attribute filters',
            'Covers objects, dicts and named tuples.'),
    'C16': ('abstract interpretation over a string-alphabet domain',
            'The domain tracks possible characters, emptiness and first characters; non-ASCII case pairs follow Python\'s own tables.'),
    'C17': ('who-may-call and guard analysis of the warning channel',
            'All calls that resolve to the warnings module.'),
    'C18': ('registration-order analysis, naming-agreement and lookup analysis',
            'Subclass relations of standard types come from the interpreter running the check.'),
    'C19': ('abstract evaluation of the package body',
            'Decides the table; the documented names are those the package itself imports for export.'),
    'C20': ('term equality of wrapper results on every path', ''),
    'C21': ('term equality of method results on every path', ''),
    'C22': ('value-flow analysis of synthetic decorated signatures',
            'The signatures are a finite set that covers every parameter kind.'),
    'C23': ('attribute value-flow through error classes and raise sites', ''),
    'C24': ('writer/reader key agreement and marker typestate', ''),
    'C25': ('loop-shape and exception-flow analysis of the union handlers', ''),
    'C26': ('term rewriting over sign, hour and minute arithmetic',
            'Offsets are whole minutes, as the property says.'),
    'C27': ('decision-table analysis of the type precedence', ''),
    'C28': ('decision-table analysis of constructor argument sources', ''),
    'C29': ('loop summarisation: elements in equal elements out',
            'Loops are unrolled up to two iterations; independence of the iteration makes the bound representative.'),
    'C32': ('abstract interpretation of the lookup of types by their names',
            'Names are shapes of plain, qualified and nested generic names.'),
    'C33': ('abstract interpretation of the default deserializers; result '
            'types derived from path terms and conditions',
            'Types with the default registrations; terms of unknown type '
            'are recorded as undecided.'),
    'C34': ('abstract interpretation of the serializers of objects, '
            'containers and unions and of dump; provenance of attribute '
            'names and types per mode',
            'The default serializers; the generics of dict values and named '
            'tuple fields are not part of the property.'),
}

NA = {
    'C30': 'Round-trip equality quantifies over user classes, their '
           'constructors, __eq__ and runtime values; no static argument in '
           'reach bounds them. Its structural parts are C13, C24, C26, C28 '
           'and C29.',
    'C31': 'Interleavings of user threads over shared dicts and lru_cache '
           'internals depend on the interpreter\'s atomicity of operations, '
           'which the source does not state; no lock discipline exists in '
           'the code that a static rule could check.',
}


def main():
    have = sorted(f[:-3].upper() for f in os.listdir(
        os.path.join(HERE, 'jsa', 'rules'))
        if f.startswith('c') and f.endswith('.py'))
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in have:
            t, note = CHECKS[i]
            cmd = 'python3 check.py %s' % i
            checks.append({
                'property': i, 'quick_cmd': cmd + ' --tier quick',
                'thorough_cmd': cmd + ' --tier thorough',
                'technique': 'static analysis: ' + t, 'level': 'other',
                'level_note': (BASE + note).strip()})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'No sound static rule has been completed for it yet.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q jsa',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'Pure source analysis: no hooks, no build; see '
                            'DESIGN.md.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
