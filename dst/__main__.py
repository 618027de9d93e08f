import argparse
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')


def main():
    p = argparse.ArgumentParser(prog='dst')
    sub = p.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('property')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--runs', type=int)
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--wall', type=float)
    r = sub.add_parser('replay')
    r.add_argument('file')
    r.add_argument('--quiet', action='store_true')
    o = sub.add_parser('one')
    o.add_argument('property')
    o.add_argument('index', type=int)
    o.add_argument('--tier', default='quick')
    o.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    d = sub.add_parser('digests')
    d.add_argument('property')
    d.add_argument('--runs', type=int, default=40)
    d.add_argument('--seed', type=int, default=1)
    d.add_argument('--tier', default='quick')
    sub.add_parser('selftest').add_argument('args', nargs='*')
    a = p.parse_args()

    from dst import runner, core, seams
    seams.preload()
    if a.cmd == 'check':
        return runner.check(a.property, a.tier, a.seed, a.runs, a.wall)
    if a.cmd == 'replay':
        data, out = runner.replay_file(a.file)
        same = out.violation is not None and out.violation['class'] == data['violation']['class']
        if not a.quiet or not same:
            print(json.dumps({'recorded': data['violation'], 'now': out.violation, 'error': out.error,
                              'digest': out.digest, 'same_event_log': out.digest == data['digest']}, indent=1))
        if same:
            print(f'VIOLATION property={data["property"]} replay={a.file}')
            return 1
        return 2 if out.error else (1 if out.violation else 0)
    if a.cmd == 'one':
        prop = runner.load(a.property)
        plan = runner.make_plan(prop, a.seed, a.tier, a.index)
        print(json.dumps(prop.describe(plan))[:3000])
        out = core.execute(prop, plan)
        print(out.violation, out.error, out.digest, dict(out.ctx.faults), dict(out.ctx.probes), out.ctx.steps)
        return 0
    if a.cmd == 'digests':
        results, errors = runner.sweep(a.property, a.seed, a.tier, list(range(a.runs)), 900, stop_on_violation=False)
        for i, r in sorted(results.items()):
            print(i, r['digest'], (r['violation'] or {}).get('class'), bool(r['error']))
        return 2 if errors else 0
    if a.cmd == 'selftest':
        from dst import selftest
        return selftest.main(a.args)


if __name__ == '__main__':
    sys.exit(main())
