#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property of utg from the current source text of /repo (which is
parsed, never imported or executed).

exit 0  the property holds on everything analysed (UNDECIDED lines name the
        parts of the obligation space the analysis could not decide)
exit 1  VIOLATION property=<id> replay=<file>
exit 2  the analysis is broken (a public anchor vanished, or nothing of the
        property could be decided)"""

import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import registry, findings as known, explore, rules  # noqa: E402
from sa.domain import Unsupported, PyExc  # noqa: E402

ASSUMPTIONS = [
    'CPython 3 semantics as modelled in sa/builtins_model.py (built-in types, re, random as an unconstrained choice)',
    'the reference descriptions in specs/ state the intended behaviour (written from the README, the tests and the domain, not derived from the analysed code)',
    'third party "rels" enumerations behave as modelled in sa/builtins_model.py',
]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', choices=('quick', 'thorough'), default=None)
    parser.add_argument('--repo', default=os.environ.get('UTG_REPO', '/repo'))
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--scenario', action='append')
    args = parser.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    start = time.time()
    entry = registry.CHECKS[args.property]
    deadline = start + (700 if tier == 'quick' else 6 * 3600)

    scenarios, problems, loading = [], [], {}
    broken = None
    try:
        run_scenarios(args, entry, tier, deadline, scenarios, loading)
    except (Unsupported, PyExc) as e:
        broken = 'the source cannot be loaded: %s' % describe(e)
    except Exception:
        broken = traceback.format_exc()

    rule_results = []
    for name in entry.get('rules', ()):
        try:
            rule_results.append(rules.run(name, args.repo, HERE))
        except rules.Undecided as e:
            problems.append('rule %s: %s' % (name, e))
        except rules.Broken as e:
            broken = broken or 'rule %s: %s' % (name, e)
        except Exception:
            broken = broken or traceback.format_exc()

    listed = known.load(os.path.join(HERE, 'KNOWN_FINDINGS.txt'), args.property)
    violations, reported = [], []
    for r in scenarios:
        for f in r.findings:
            hit = known.match(listed, f.scenario, f.message, f.construct, f.inputs)
            text = f.text()
            if 'utg/' not in f.construct:
                text += '\n    anchors: %s' % '; '.join(anchors(entry, dict(loading, **r.touched)))
            (reported if hit else violations).append((hit, text))
    for r in rule_results:
        for f in r.findings:
            hit = known.match(listed, r.name, f.message, f.construct, '')
            (reported if hit else violations).append((hit, f.text()))
        problems.extend('rule %s: %s' % (r.name, u) for u in r.undecided)
    undecided = problems + [u for r in scenarios for u in r.undecided]

    obligations = sum(r.obligations for r in scenarios) + sum(r.obligations for r in rule_results)
    discharged = sum(r.discharged for r in scenarios) + sum(r.discharged for r in rule_results)

    for r in scenarios:
        print('%-46s %6d classes %6d refinements %7d/%d obligations  %.1fs%s' % (
            r.name, r.classes, r.refinements, r.discharged, r.obligations, r.wall, '  %d classes twice (%s)' % (r.again, ', '.join(r.stateful)) if r.again else ''))
    for r in rule_results:
        print('%-46s %6d sites   %25d/%d obligations' % (r.name, r.sites, r.discharged, r.obligations))
    seen = set()
    for hit, text in reported:
        if hit not in seen:
            seen.add(hit)
            print('KNOWN-FINDING: property=%s %s' % (args.property, hit))
    for u in undecided:
        print('UNDECIDED %s' % u)

    evidence(args, entry, tier, start, scenarios, loading, rule_results, undecided, violations, reported, obligations, discharged)

    if violations:
        replay = os.path.join(HERE, 'evidence', '%s.violation.txt' % args.property)
        with open(replay, 'w') as f:
            f.write('# re-run: python3 %s %s --tier %s\n' % (os.path.join(HERE, 'check.py'), args.property, tier))
            for _, text in violations:
                f.write(text + '\n\n')
        for _, text in violations:
            print(text)
        print('VIOLATION property=%s replay=%s' % (args.property, replay))
        return 1
    if broken:
        print('ANALYSIS BROKEN: %s' % broken)
        return 2
    if not discharged:
        print('NOTHING DECIDED')
        return 2
    if tier == 'thorough' and undecided:
        return 2
    print('property %s holds: %d obligations%s' % (args.property, discharged, ' (%d parts undecided)' % len(undecided) if undecided else ''))
    return 0


def anchors(entry, touched):
    """where the behaviour of the property is implemented"""
    out = ['%s:%d (%s)' % (touched[q] + (q,)) for q in entry.get('anchors', ()) if q in touched]
    return out or list(entry.get('anchors', ())) or ['package utg']


def describe(e):
    if isinstance(e, PyExc):
        return '%s %r' % (e.value.cls.name, e.value.attrs.get('args'))
    return str(e)


def run_scenarios(args, entry, tier, deadline, scenarios, loading):
    total = 0
    for setting, group in sorted(entry.get('scenarios', {}).items()):
        E = explore.Explorer(args.repo, os.path.join(HERE, 'specs'), use_layout=setting.startswith('reference layout'), thorough=(tier == 'thorough'))
        E.I.reverse_sets = setting.endswith('reversed sets')
        E.I.deadline = deadline
        E.repeat = entry.get('repeat', True)
        E.load(['utg.' + m for m in explore.MODULES])
        loading.update(E.I.touched)
        wanted = []
        for module, names in group:
            m = E.I.load('specs.' + module)
            for name in names or [k for k in m.env if k.startswith('scn_')]:
                wanted.append((module, m, name))
        total += len(wanted)
        for module, m, name in wanted:
            if args.scenario and name not in args.scenario:
                continue
            # no scenario may use up the time of those that follow
            now = time.time()
            share = min(1.0, 3.0 / max(1, total - len(scenarios)))
            r = E.scenario(name, m.env[name], jobs=args.jobs, deadline=now + (deadline - now) * share, max_findings=entry.get('max_findings', 3))
            r.spec = module
            if setting.endswith('reversed sets'):
                r.name += ' (reversed sets)'
            scenarios.append(r)


def evidence(args, entry, tier, start, scenarios, loading, rule_results, undecided, violations, reported, obligations, discharged):
    functions = {}
    for touched in [r.touched for r in scenarios] + [loading]:
        for qual, (path, line) in touched.items():
            if path.startswith('utg/'):
                functions[qual] = '%s:%d' % (path, line)
    for r in rule_results:
        functions.update(r.functions)
    coverage = {
        'explanation': entry['explanation'],
        'obligations': obligations,
        'discharged': discharged,
        'undecided': undecided[:40],
        'undecided_parts': len(undecided),
        'functions_analysed': len(functions),
        'functions': dict(sorted(functions.items())[:200]),
        'abstract_classes': sum(r.classes for r in scenarios),
        'refinements': sum(r.refinements for r in scenarios),
        'scenarios': [{'name': r.name, 'spec': r.spec, 'rule': r.doc, 'classes': r.classes, 'refinements': r.refinements,
                       'obligations': r.obligations, 'discharged': r.discharged, 'evaluated_twice': r.again, 'wall_s': round(r.wall, 2)} for r in scenarios],
        'rules': [{'name': r.name, 'rule': r.doc, 'sites': r.sites, 'obligations': r.obligations, 'discharged': r.discharged,
                   'samples': r.samples[:8]} for r in rule_results],
        'samples': [s for r in scenarios for s in r.samples[:2]][:10] + [s for r in rule_results for s in r.samples[:2]],
        'known_findings': [text for _, text in reported],
        'exhaustive': not undecided,
    }
    data = {
        'property': args.property,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': coverage,
        'assumptions': ASSUMPTIONS + entry.get('assumptions', []),
        'wall_s': round(time.time() - start, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', args.property + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(data, f, ensure_ascii=False, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main())
