#!/usr/bin/env python3
"""Decide one property: build its units from /repo's current tree, verify every harness with CBMC, replay counterexamples.

usage: check.py PROPERTY [--tier quick|thorough] [--unit NAME] [--harness NAME] [--keep] [-v]

Exit 0: every obligation discharged. Exit 1 and a VIOLATION line: an obligation fails. Exit 2: the tools gave no answer.
"""
import argparse
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = ['-std=gnu11', '-D_POSIX_C_SOURCE=200809L', '-D_FILE_OFFSET_BITS=64', '-D__NO_CTYPE', '-I' + VERIF + '/shim', '-I' + VERIF,
       '-I' + REPO + '/src', '-I/usr/include/libxml2', '-I/usr/include/postgresql', '-w']
CBMC_BASE = ['cbmc', '--no-standard-checks', '--unwinding-assertions', '--no-malloc-may-fail', '--drop-unused-functions',
             '--slice-formula', '--object-bits', '12', '--max-field-sensitivity-array-size', '256']
TIME_LIMIT = {'quick': 780, 'thorough': 7000}


class ToolError(Exception):
    pass


def parse_unit(path):
    """Directives are //@ lines of the unit source"""
    unit = {'path': path, 'name': os.path.basename(path)[:-2], 'harness': [], 'sys': [], 'trust': [], 'property': [], 'src': [],
            'flag': [], 'gen': [], 'cdef': [], 'creplace': []}
    for line in open(path):
        m = re.match(r'\s*//@(\w+)\s+(.*)', line)
        if not m:
            continue
        key, val = m[1], m[2].strip()
        if key == 'harness':
            w = val.split()
            h = {'name': w[0], 'unwind': '4', 'kind': 'proof', 'tier': 'quick', 'funcs': '', 'flags': '', 'property': None, 'timeout': None,
                 'bound': '', 'def': '', 'replace': '', 'bits': '12'}
            for a in w[1:]:
                k, v = a.split('=', 1)
                h[k] = v
            unit['harness'].append(h)
        elif key in ('sys', 'property', 'src', 'flag', 'gen', 'cdef', 'creplace'):
            unit[key] += val.split()
        elif key == 'trust':
            unit['trust'].append(val)
        elif key == 'bound':
            unit['harness'][-1]['bound'] = val
        else:
            raise ToolError('%s: unknown directive %s' % (path, key))
    return unit


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def must(cmd, what):
    r = run(cmd)
    if r.returncode != 0:
        raise ToolError('%s failed: %s\n%s' % (what, ' '.join(cmd), (r.stdout + r.stderr)[-3000:]))
    return r


def generated(work, unit):
    """Sources that the repository's own build generates (build/build.py), regenerated from the current tree"""
    out = []
    if 'postgres' in unit['gen']:
        d = os.path.join(work, 'gen')
        if not os.path.isdir(d):
            os.makedirs(d)
            must([sys.executable, REPO + '/build/build.py', 'postgres', '--repo-path=' + REPO, '--build-path=' + d],
                 'generate postgres interface')
        out.append('-I' + d + '/src')
    return out


def build_unit(unit, work, mode, harness_def='', replace=''):
    replace = [x for x in replace.split(',') if x]
    harness_def = ','.join(['REPLACE_' + x for x in replace] + ([harness_def] if harness_def else []))
    base = os.path.join(work, unit['name'] + '.' + mode + (('.' + re.sub(r'\W+', '_', harness_def)) if harness_def else ''))
    defs = ['-DVERIF_CBMC'] if mode == 'cbmc' else []
    defs += ['-D' + x for x in unit['cdef']] + ['-D' + x for x in harness_def.split(',') if x]
    must(['gcc', '-E', '-o', base + '.i'] + defs + CPP + generated(work, unit) + [unit['path']], 'preprocess')
    must([sys.executable, os.path.join(VERIF, 'bin/xform.py'), base + '.i', base + '.x.c', mode] + unit['sys'] +
         ['body:' + x for x in replace] + (['body:' + x for x in unit['creplace']] if mode == 'cbmc' else []), 'extract')
    if mode == 'cbmc':
        must(['goto-cc', '-o', base + '.gb', '-c', base + '.x.c'], 'goto-cc')
        return base + '.gb'
    return base


def cbmc_json(cmd, timeout):
    try:
        r = subprocess.run(['prlimit', '--as=%d' % (24 << 30)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout after %d s' % timeout
    try:
        data = json.loads(r.stdout)
    except ValueError:
        return None, 'no answer (exit %d): %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
    return data, None


def results_of(data):
    for item in data:
        if 'result' in item:
            return item['result']
    return None


def messages_of(data):
    return [x.get('messageText', '') for x in data if 'messageText' in x]


def collect(trace):
    """Values of verif_in() in trace order, with the input name"""
    return [{'name': step['inputID'], 'value': int(step['values'][0]['binary'], 2)} for step in trace
            if step.get('stepType') == 'input' and step.get('sourceLocation', {}).get('function') == 'verif_in']


class Harness:
    def __init__(self, unit, h, tier, work, verbose):
        self.unit, self.h, self.tier, self.work, self.verbose = unit, h, tier, work, verbose
        self.status = 'error'
        self.detail = ''
        self.obligations = []
        self.failed = []
        self.covers = 0
        self.replay = None
        self.solver_s = 0.0
        self.unwinding = 0

    @property
    def id(self):
        return self.unit['name'] + '/' + self.h['name']

    def cmd(self):
        c = list(CBMC_BASE)
        c[c.index('--object-bits') + 1] = self.h['bits']
        c += ['--function', self.h['name'], '--unwind', self.h['unwind']]
        for f in self.h['flags'].split(','):
            if f:
                c += ('--' + f).split(':', 1)
        for f in self.unit['flag']:
            c += f.split(':', 1)
        return c

    def check(self, deadline):
        t0 = time.time()
        try:
            gb = build_unit(self.unit, self.work, 'cbmc', self.h['def'], self.h['replace'])
            self._check(gb, deadline)
        except ToolError as e:
            self.status, self.detail = 'error', str(e)
        self.wall = time.time() - t0
        return self

    def _check(self, gb, deadline):
        limit = min(int(self.h['timeout'] or 100000), max(10, deadline - time.time()))
        data, err = cbmc_json(self.cmd() + [gb, '--json-ui'], limit)
        if err:
            self.status, self.detail = 'error', err
            return
        res = results_of(data)
        if res is None:
            self.status, self.detail = 'error', 'cbmc: ' + ' | '.join(messages_of(data))[-1500:]
            return
        for m in messages_of(data):
            mm = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e+-]+)s', m)
            if mm:
                self.solver_s += float(mm[1])
        limits, fails, covers = [], [], []
        for r in res:
            d, ok = r['description'], r['status'] == 'SUCCESS'
            if r['status'] not in ('SUCCESS', 'FAILURE'):
                limits.append('undecided: ' + d)
            elif d.startswith('COVER '):
                covers.append((d, not ok))
            elif d.startswith('LIMIT ') or d.startswith('no body for') or 'no-body' in r['property']:
                if not ok:
                    limits.append(d)
            elif d.startswith('max allocation'):
                if not ok:
                    limits.append(d)
            elif d.startswith('dereferenced function pointer'):
                if not ok:
                    limits.append(d)
            elif '.unwind' in r['property'] or 'unwinding assertion' in d or 'recursion' in r['property']:
                self.unwinding += 1
                if not ok:
                    limits.append('%s (%s)' % (d, r['property']))
            else:
                self.obligations.append({'id': r['property'], 'text': d[3:] if d.startswith('OB ') else d, 'ok': ok,
                                         'at': '%s:%s' % (r.get('sourceLocation', {}).get('file', '').replace(REPO + '/', ''),
                                                          r.get('sourceLocation', {}).get('line', ''))})
                if not ok:
                    fails.append((r['property'], d))
        self.covers = sum(1 for c in covers if c[1])
        self.cover_total = len(covers)
        dead = [c[0] for c in covers if not c[1]]
        if fails:
            self.failed = fails
            self.limits = limits
            self.replay_failure(gb, deadline)
            if self.replay['confirmed'] or not limits:
                self.status = 'violation'
            else:
                # The obligation may fail only because of what the model could not represent
                self.status, self.detail = 'error', 'obligation failed behind a limit: ' + '; '.join(limits)
            return
        if limits:
            self.status, self.detail = 'error', 'limit: ' + '; '.join(limits[:6])
            return
        if dead:
            # A cover that is not reached: a precondition excludes everything, or the code no longer gets there. Not a violation.
            self.status, self.detail = 'error', 'unreachable: ' + '; '.join(dead)
            return
        if not self.obligations or not covers:
            self.status, self.detail = 'error', 'vacuous: %d obligations, %d covers' % (len(self.obligations), len(covers))
            return
        self.status = 'ok'

    def native(self):
        """Development aid: build and run the harness natively with all inputs 0"""
        base = build_unit(self.unit, self.work, 'native', self.h['def'], self.h['replace'])
        main = base + '.main.c'
        open(main, 'w').write('void %s(void);\nint main(void) { %s(); return 0; }\n' % (self.h['name'], self.h['name']))
        exe = base + '.' + self.h['name'] + '.exe'
        r = run(['gcc', '-w', '-std=gnu11', '-g', '-O0', '-ffunction-sections', '-fdata-sections', '-o', exe, base + '.x.c', main,
                 '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-lm'])
        if r.returncode:
            return 'build failed: ' + r.stderr[-800:]
        n = run([exe], timeout=20, env={'PATH': os.environ['PATH']}, cwd=self.work)
        return 'exit %d %s' % (n.returncode, (n.stdout + n.stderr)[-300:])

    def replay_failure(self, gb, deadline):
        """Get a counterexample for a failed obligation and run it natively against the real code"""
        self.replay = {'confirmed': False, 'text': '', 'inputs': []}
        order = sorted(self.failed, key=lambda f: (f[1].startswith('OB code-assert'), f[0]))
        for prop, desc in order[:4]:
            data, err = cbmc_json([x for x in self.cmd() if x != '--slice-formula'] + [gb, '--json-ui', '--trace', '--property', prop], max(20, deadline - time.time()))
            if err:
                self.replay['text'] += '\n(no trace for %s: %s)' % (prop, err)
                continue
            res = [r for r in results_of(data) or [] if r['property'] == prop and r['status'] == 'FAILURE']
            if not res or 'trace' not in res[0]:
                continue
            calls = collect(res[0]['trace'])
            base = build_unit(self.unit, self.work, 'native', self.h['def'], self.h['replace'])
            main = base + '.main.c'
            open(main, 'w').write('void %s(void);\nint main(void) { %s(); return 0; }\n' % (self.h['name'], self.h['name']))
            exe = base + '.' + self.h['name'] + '.exe'
            san = [] if desc.startswith('OB ') else ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
            r = run(['gcc', '-w', '-std=gnu11', '-g', '-O0'] + san + [ '-ffunction-sections', '-fdata-sections', '-o', exe, base + '.x.c', main,
                     '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-lm'])
            inp = base + '.' + self.h['name'] + '.in'
            with open(inp, 'w') as f:
                for c in calls:
                    f.write('in %s %d\n' % (c['name'], c['value']))
            first = not self.replay['inputs']
            if first:
                self.replay.update(property=prop, desc=desc, inputs=calls)
            if r.returncode != 0:
                self.replay['text'] += '\n(native build failed: %s)' % r.stderr[-800:]
                return
            scratch = tempfile.mkdtemp(prefix='verif-replay-')
            try:
                nat = run([exe], timeout=20, env={'VERIF_REPLAY': inp, 'PATH': os.environ['PATH']}, cwd=scratch)
                out = nat.stdout + nat.stderr
                code = nat.returncode
            except subprocess.TimeoutExpired:
                out, code = 'timeout', 124
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            self.replay['text'] += '\nnative replay of %s: exit %d\n%s' % (prop, code, out[-1500:])
            if code == 1 and 'REPLAY-FAILED' in out or code < 0 or 'runtime error:' in out or 'AddressSanitizer' in out:
                self.replay.update(property=prop, desc=desc, inputs=calls, confirmed=True)
                return


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--harness')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--native', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    deadline = t0 + int(os.environ.get('VERIF_LIMIT_S', TIME_LIMIT[args.tier]))
    prop = args.property
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        units = [parse_unit(p) for p in sorted(glob.glob(os.path.join(VERIF, 'units', '*.c')))]
        jobs = []
        for u in units:
            if args.unit and u['name'] != args.unit:
                continue
            for h in u['harness']:
                hp = (h['property'] or ','.join(u['property'])).split(',')
                if prop not in hp or (h['tier'] == 'thorough' and args.tier == 'quick'):
                    continue
                if args.harness and h['name'] != args.harness:
                    continue
                jobs.append(Harness(u, h, args.tier, os.path.join(work, u['name'] + '-' + h['name']), args.v))
        if not jobs:
            print('no harness for ' + prop)
            return 2
        for j in jobs:
            os.makedirs(j.work)
        if args.native:
            for j in jobs:
                print(j.id, j.native())
            return 0
        with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            done = list(ex.map(lambda j: j.check(deadline), jobs))
        return report(prop, args, done, t0)
    finally:
        if args.keep:
            print('work: ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def report(prop, args, done, t0):
    for j in done:
        n = len(j.obligations)
        print('%-44s %-9s %3d obligations %2d covers %3d unwind  %6.1f s  [%s] %s' % (
            j.id, j.status, n, j.covers, j.unwinding, j.wall, j.h['kind'], j.detail[:1500] if j.status == 'error' else ''))
        if args.v:
            for o in j.obligations:
                print('    %s %s (%s)' % ('ok  ' if o['ok'] else 'FAIL', o['text'], o['at']))
    violations = [j for j in done if j.status == 'violation']
    errors = [j for j in done if j.status == 'error']
    manifest = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = next((c['level'] for c in manifest['checks'] if c['property'] == prop), 'proof')
    ob = sum(len(j.obligations) for j in done)
    ok = sum(sum(1 for o in j.obligations if o['ok']) for j in done)
    trust = []
    for j in done:
        for t in j.unit['trust']:
            if t not in trust:
                trust.append(t)
    trust += COMMON_TRUST
    units = sorted({j.unit['name'] for j in done})
    ver = run(['cbmc', '--version']).stdout.strip()
    coverage = {
        'obligations': ob,
        'discharged': ok,
        'checker_cmd': ' '.join(CBMC_BASE + ['--function', '<harness>', '--unwind', '<n>', '<unit>.gb']) + '  (via bin/check.py %s)' % prop,
        'trusted_base': trust,
        'backend': 'CBMC %s, MiniSat' % ver,
        'solver_s': round(sum(j.solver_s for j in done), 2),
        'callees_by_contract': sorted({f for j in done for f in j.h['replace'].split(',') if f}),
        'functions_under_contract': sorted({f for j in done for f in j.h['funcs'].split(',') if f}),
        'units': units,
        'harnesses': [{
            'harness': j.id, 'kind': j.h['kind'], 'bound': j.h['bound'], 'status': j.status, 'obligations': len(j.obligations),
            'discharged': sum(1 for o in j.obligations if o['ok']), 'unwinding_assertions': j.unwinding,
            'reachability_covers_hit': j.covers, 'wall_s': round(j.wall, 2)} for j in done],
        'obligation_list': sorted({o['text'] for j in done for o in j.obligations if not o['text'].startswith('code-assert')}),
        'proved_harnesses': sum(1 for j in done if j.h['kind'] == 'proof' and j.status == 'ok'),
        'bounded_harnesses': sum(1 for j in done if j.h['kind'] == 'bounded' and j.status == 'ok'),
        'discharged_without_bound': sum(sum(1 for o in j.obligations if o['ok']) for j in done if j.h['kind'] == 'proof'),
        'discharged_within_stated_bound': sum(sum(1 for o in j.obligations if o['ok']) for j in done if j.h['kind'] == 'bounded'),
        'explanation': 'Contracts of the real functions discharged by CBMC on this run; harnesses of kind bounded hold within the bound '
                       'stated with them (counts, lengths), for every input, option and failure inside it, and are not counted as proved.',
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if args.unit is None and args.harness is None:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump({
                'property': prop, 'tier': args.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'coverage': coverage,
                'assumptions': trust, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}, f, indent=1)
    code = 0
    if violations:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for j in violations:
            path = os.path.join(rdir, '%s-%s-%s.txt' % (prop, j.unit['name'], j.h['name']))
            with open(path, 'w') as f:
                f.write('property %s\nharness %s (units/%s.c)\n' % (prop, j.id, j.unit['name']))
                f.write('failed obligations:\n')
                for p, d in j.failed:
                    at = next((o['at'] for o in j.obligations if o['id'] == p), '')
                    f.write('  %s: %s (%s)\n' % (p, d, at))
                f.write('verifier: %s\n' % ' '.join(j.cmd()))
                f.write('counterexample for %s (inputs in call order; replay with VERIF_REPLAY=<this file>):\n' % j.replay.get('property'))
                for c in j.replay['inputs']:
                    f.write('in %s %d\n' % (c['name'], c['value']))
                f.write('confirmed on the real code: %s\n%s\n' % (j.replay['confirmed'], j.replay['text']))
            print('  obligation: ' + '; '.join(d for _, d in j.failed[:5]))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if j.replay['confirmed'] else ' no-failing-input-found'))
        code = 1
    elif errors:
        code = 2
    print('%s: %d/%d obligations discharged in %.1f s: %s' % (
        prop, ok, ob, time.time() - t0, 'holds' if code == 0 else 'VIOLATED' if code == 1 else 'NO ANSWER'))
    return code


COMMON_TRUST = [
    'CBMC 6.11.0 (goto-cc front end, symbolic execution, SAT back end) and gcc -E',
    'shim headers: function/parameter logging, stack trace and error message text are dropped; memory contexts are dropped (no frees, so '
    'lifetime errors are not observable); allocation never fails',
    'bin/xform.py: error propagation (setjmp/longjmp in the original) is made explicit as branches after each call',
]

if __name__ == '__main__':
    sys.exit(main())
