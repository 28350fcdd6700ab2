import importlib, json, os, resource, struct, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vf
sys.path.insert(0, vf.REPO)
sys.setrecursionlimit(5000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); vf.limit()
    mod = importlib.import_module('props.' + prop.lower())
    ctx = vf.Ctx(prop, tier if tier in ('quick', 'thorough') else 'quick', seed)
    try:
        if tier == 'replay':
            return replay(ctx, mod, sys.argv[3])
        return check(ctx, mod)
    finally:
        ctx.close()


def replay(ctx, mod, path):
    with open(path) as f: r = json.load(f)
    if r['module'] == 'driver':
        print(r['trace']['ev'][0]); return 1
    bad = ctx.validate(r['module'], [r['trace']])
    print(json.dumps({'clause_recorded': r['clause'], 'rejected_now': {k: v for k, v in bad.items()}}))
    return 1 if bad else 0


def check(ctx, mod):
    import ndspy
    if not os.path.abspath(ndspy.__file__).startswith(vf.REPO + '/'):
        raise vf.MachineryError(f'ndspy imported from {ndspy.__file__}')
    crash = None
    try:
        mod.run(ctx)
    except vf.Abort:
        crash = 'several calls did not return'
    except vf.MachineryError:
        raise
    except Exception as e:
        # The driver only makes calls that the specification allows, so an exception
        # that escapes from the code under test is an unexplained event.
        # So is a value it returned that the driver cannot even describe as an event.
        frames = traceback.extract_tb(e.__traceback__)
        odd = (vf.IllTyped, TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError, RecursionError, struct.error)
        if not isinstance(e, odd) and not any(f.filename.startswith(vf.REPO + '/') for f in frames[-4:]):
            raise
        crash = ''.join(traceback.format_exception(e))[-3000:]
    known = vf.known_findings()
    groups = {}
    ctx.traces = [t for t in ctx.traces if t['ev']]
    for t in ctx.traces:
        groups.setdefault(t.get('module', mod.TRACE), []).append(t)
    violations, findings, accepted = [], [], 0
    for module, traces in groups.items():
        # big sets are cut into batches so that TLC's heap stays small
        batches, room = [], 0
        for t in traces:
            n = len(json.dumps(t['ev']))
            if n > room or len(batches[-1]) >= getattr(mod, 'BATCH', 4000): batches.append([]); room = 40_000_000
            batches[-1].append(t); room -= n
        for batch in batches:
            if len(violations) > 50: break
            bad = ctx.validate(module, batch)
            accepted += len(batch) - len(bad)
            for idx, (step, clause) in sorted(bad.items()):
                t = batch[idx]
                fid = t.get('finding')
                if fid and (ctx.prop, fid) in known:
                    findings.append((fid, known[(ctx.prop, fid)]))
                else:
                    violations.append((module, t, step, clause))
    if crash:
        violations.append(('driver', {'name': 'driver', 'ev': [crash]}, 1, 'unexpected exception or endless call'))
    for fid, what in sorted(set(findings)):
        print(f'KNOWN-FINDING: property={ctx.prop} {what}')

    os.makedirs(os.path.join(vf.VERIF, 'evidence', 'replay'), exist_ok=True)
    vrec = []
    for n, (module, t, step, clause) in enumerate(violations[:10]):
        path = os.path.join(vf.VERIF, 'evidence', 'replay', f'{ctx.prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump({'property': ctx.prop, 'module': module, 'clause': clause, 'step': step,
                       'seed': ctx.seed, 'tier': ctx.tier, 'trace': t,
                       'how': f'bash /verif/check.sh {ctx.prop} replay {path}'}, f)
        vrec.append({'case': t['name'], 'step': step, 'clause': clause, 'replay': path})
        print(f'VIOLATION property={ctx.prop} replay={path}')
        if n < 4: print(f'  case {t["name"]}, event {step}, clause "{clause}": '
              + vf.shorten(t['ev'][step - 1] if 0 < step <= len(t['ev']) else None, 250))
    if len(violations) > 10: print(f'  ... and {len(violations) - 10} more rejected traces')

    samples = [{'case': t['name'], 'events': vf.shorten(t['ev'], 400)}
               for t in ctx.traces[::max(1, len(ctx.traces) // 4)][:5]]
    cov = {
        'states': sum(r['distinct_states'] for r in ctx.runs),
        'transitions': sum(r['states_generated'] for r in ctx.runs),
        'traces_validated_against_impl': accepted,
        'traces_rejected': len(violations) + len(findings),
        'impl_events_recorded': sum(len(t['ev']) for t in ctx.traces),
        'tlc_runs': ctx.runs,
        'samples': samples,
    }
    cov.update(ctx.extra)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'violations': vrec}
    with open(os.path.join(vf.VERIF, 'evidence', f'{ctx.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{ctx.prop} {ctx.tier}: {accepted} traces accepted, {len(violations)} rejected, '
          f'{cov["states"]} states, {ev["wall_s"]} s')
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        rc = main()
    except vf.MachineryError as e:
        print('CHECK-ERROR:', e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
