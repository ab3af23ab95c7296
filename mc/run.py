"""run.py C01 quick|thorough | run.py C01 --replay FILE
Builds from /repo, explores, reports. Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, subprocess, sys, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


# properties which are checked in several build variants of the library
VARIANTS = {
    'C20': {'main': [], 'dbg': ['-DMJS_ENABLE_DEBUG=1']},
    'C22': {'src': [], 'amal': [], 'nocommon': []},
    'C18': {'main': ['-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores']},
    'C13': {'main': [], 'o0': ['-DMJS_INIT_OFFSET_SIZE=0'], 'o2': ['-DMJS_INIT_OFFSET_SIZE=2'], 'o4': ['-DMJS_INIT_OFFSET_SIZE=4']},
}


def merge(a, b):
    if a is None:
        return b
    for k in ('generated', 'run', 'nontrivial', 'transitions', 'executions', 'validated', 'states', 'wall'):
        a[k] += b[k]
    a['aborted'] = a['aborted'] or b['aborted']
    a['samples'] = (a['samples'] + b['samples'])[-12:]
    for k, v in b['extra'].items():
        a['extra'][k] = a['extra'].get(k, 0) + v
    a['violations'] += b['violations']
    return a


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    t0 = time.time()
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_malloc_fill_size=4096:quarantine_size_mb=64'
    variants = dict(VARIANTS.get(prop, {'main': []}))
    tmp = tempfile.mkdtemp(prefix='mc_%s_' % prop)
    env['MC_TMP'] = tmp
    try:
        try:
            # the generated files are only run when they are not the ones in the tree
            if prop == 'C22' and not B.generate():
                variants.update({'gen': [], 'gennc': []})
            bins = B.build(prop.lower(), variants)
            if prop == 'C24':
                env['MC_RUNNERS'] = ','.join('%s=%s' % x for x in B.runners().items())
        except SystemExit as e:
            print(e)
            return 2
        main_bin = bins[list(variants)[0]]

        def replay(path, **kw):
            v = open(path, encoding='latin1', newline='').read().split(' ')[0] if len(variants) > 1 else 'main'
            if prop == 'C22':      # the others are compared with the first
                r = 0
                for x in variants:
                    env['MC_VARIANT'] = x
                    r = subprocess.run([bins[x], '--tmp', tmp, '--replay', path], env=env, **kw).returncode or r
                return r
            env['MC_VARIANT'] = v
            return subprocess.run([bins.get(v, main_bin), '--tmp', tmp, '--replay', path], env=env, **kw).returncode
        if mode == '--replay':
            return replay(sys.argv[3])
        r = None
        for v in variants:
            out = tmp + '/out.json'
            env['MC_VARIANT'] = v
            sub = tmp + '/' + v
            os.makedirs(sub, exist_ok=True)
            cmd = [bins[v], '--tmp', sub, '--out', out, '--shards', str(os.cpu_count() or 8)]
            if mode == 'thorough':
                cmd.append('--thorough')
            rc = subprocess.run(cmd, env=env).returncode
            if rc != 0 or not os.path.exists(out):
                print('check %s failed: driver exit status %d' % (prop, rc))
                return 2
            r = merge(r, json.load(open(out)))
            os.unlink(out)
        listed = [k for k in known() if k['property'] == prop and k.get('status') == 'known']
        for k in listed:
            f = tmp + '/known.txt'
            open(f, 'w', encoding='latin1', newline='').write(k['input'])
            if replay(f, stdout=subprocess.DEVNULL) == 1:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        rep = os.path.join(VERIF, 'replay')
        bad = 0
        for i, v in enumerate(r['violations']):
            text = open(v['file'], encoding='latin1', newline='').read()
            if any(k['input'] == text for k in listed):
                continue
            bad += 1
            os.makedirs(rep, exist_ok=True)
            dst = os.path.join(rep, '%s.%d.txt' % (prop, i))
            shutil.copy(v['file'], dst)
            print('VIOLATION property=%s replay=%s' % (prop, dst))
            print('  case: %s' % text[:600].replace('\n', '\n        '))
            print('  %s' % v['msg'][:1500].replace('\n', '\n  '))
        cov = {
            'evaluations': r['executions'], 'distinct_nontrivial': r['nontrivial'], 'rule': r['rule'],
            'cases_generated': r['generated'], 'cases_distinct': r['run'],
            'states': r['states'], 'transitions': r['transitions'],
            'traces_validated_against_impl': r['validated'],
            'samples': r['samples'], 'exhaustive': not r['aborted'],
        }
        cov.update(r['extra'])
        ev = {
            'property': prop, 'tier': 'thorough' if mode == 'thorough' else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
            'coverage': cov, 'assumptions': r['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': bad,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: %d cases (%d distinct), %d executions, %d states, %d transitions, %d traces validated, %.1f s, %d violation(s)' %
              (prop, mode, r['generated'], r['run'], r['executions'], r['states'], r['transitions'], r['validated'], time.time() - t0, bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
