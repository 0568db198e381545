#!/usr/bin/env python3
"""Solver-based checking of /repo: encode the real functions with goto-cc, decide the
property's assertions with CBMC, replay every counterexample natively before reporting it.

  run.py PROP [--tier quick|thorough] [--harness NAME] [--keep] [-v]

exit 0: every obligation discharged within the stated bounds
exit 1: VIOLATION (counterexample reproduced against the real code)
exit 2: no answer (timeout, out of memory, counterexample that does not reproduce...) for more than 40 % of the cases,
        or for any case when VP_STRICT=1; fewer undecided cases are reported (UNDECIDED lines, evidence) and the verdict is
        about the others
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
SC = os.path.join(REPO, 'scantool')
sys.path.insert(0, HERE)
import registry

RENAME = ['malloc', 'calloc', 'realloc', 'free', 'strdup',
          'fprintf', 'printf', 'puts', 'putchar', 'fputs', 'memcpy', 'memmove']
MEM_GB = float(os.environ.get('VP_MEM_GB', '9'))
LOCK = threading.Lock()
STOP = threading.Event()     # a violation was reproduced: the remaining shapes are not needed
CHECKED = set()
OBJLOCKS = {}


TMP = [None]


def sh(cmd, timeout=None, cwd=None, mem=None, env=None, stoppable=False):
    def pre():
        os.setsid()
        if mem:
            b = int(mem * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    if TMP[0]:
        env = dict(env or os.environ, TMPDIR=TMP[0])
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=pre, env=env)
    end = time.time() + timeout if timeout else None
    while True:
        left = 3600 if end is None else end - time.time()
        if left <= 0 or (stoppable and STOP.is_set()):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
            return -9, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), True
        try:
            o, e = p.communicate(timeout=max(0.05, min(left, 2)))
            return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), False
        except subprocess.TimeoutExpired:
            continue


class Inconclusive(Exception):
    pass


class Violated(Exception):
    pass


class Run:
    def __init__(self, h, shape, idx, tier, scratch, deadline, verbose=False):
        self.h, self.tier, self.deadline, self.v = h, tier, deadline, verbose
        self.shape = {k: v for k, v in shape.items() if not k.startswith('_')}
        self.opts, shape = {k: v for k, v in shape.items() if k.startswith('_')}, self.shape
        self.idx = idx
        self.narrow = 0
        self.name = h.name + ('' if not shape else '[' + ','.join('%s=%s' % kv for kv in shape.items()) + ']')
        self.scratch = scratch
        self.dir = os.path.join(scratch, '%s_%d' % (h.name, idx))
        os.makedirs(self.dir)
        self.defs = dict(h.defs)
        if tier == 'thorough':
            self.defs.update(h.thorough_defs)
        self.unwind = h.unwind_thorough if tier == 'thorough' and h.unwind_thorough else h.unwind
        self.unwind = self.opts.get('_unwind', self.unwind)
        self.res = dict(harness=self.name, hname=h.name, bounds=h.bounds, unwind=self.unwind, units=h.repo)

    def left(self):
        return self.deadline - time.time()

    # ---- builds -------------------------------------------------------
    def dflags(self):
        f = []
        for k, v in self.defs.items():
            f.append('-D%s=%s' % (k, v) if v != '' else '-D' + k)
        return f

    def units(self):
        """(source path, is_repo_source)"""
        out = []
        for s in self.h.repo:
            out.append((os.path.join(SC, s), True))
        for s in self.h.env:
            out.append((os.path.join(VERIF, 'rt', s), False))
        out.append((os.path.join(VERIF, 'rt', 'vp_rt.c'), False))
        out.append((os.path.join(VERIF, 'harness', self.h.file), False))
        return out

    def cflags(self, src, is_repo):
        b = os.path.basename(src)
        f = ['-std=gnu99', '-w'] + ([] if is_repo else ['-Werror=implicit-function-declaration']) + ['-I' + os.path.join(VERIF, 'rt'), '-I' + SC,
             '-I' + os.path.join(VERIF, 'harness'),
             '-DCURFILE="%s"' % b] + self.dflags()
        if self.narrow and b == 'vp_rt.c':
            f.append('-DVP_NARROW=%d' % self.narrow)
        if not is_repo:
            for k, v in self.shape.items():
                f.append('-D%s=%s' % (k, v))
        if is_repo or self.h.rename_all:
            ren = [r for r in RENAME if r not in self.h.no_rename] + self.h.rename
            f += ['-D%s=vp_%s' % (r, r) for r in ren if r not in ('snprintf', 'sscanf')]
            if 'sscanf' in ren:
                f += ['-include', os.path.join(VERIF, 'rt', 'vp_scan.h')]
            if 'snprintf' in ren:
                f += ['-include', os.path.join(VERIF, 'rt', 'vp_fmt.h')]
            f += ['-D' + x for x in self.h.repo_defs.get(b, [])]
        return f

    def obj(self, kind, cmd, src, flags):
        """compile once per distinct (command, flags, source)"""
        key = hashlib.sha1(repr((cmd, flags, src)).encode()).hexdigest()[:16]
        o = os.path.join(self.scratch, 'objs', '%s_%s_%s.o' % (kind, os.path.basename(src), key))
        with LOCK:
            lk = OBJLOCKS.setdefault(o, threading.Lock())
        with lk:
            if not os.path.exists(o):
                rc, so, se, _ = sh(cmd + flags + ['-c', src, '-o', o + '.tmp'], timeout=180)
                if rc != 0:
                    raise Inconclusive('%s failed on %s:\n%s' % (cmd[0], src, (so + se)[-3000:]))
                os.rename(o + '.tmp', o)
        return o

    def build_goto(self):
        t = time.time()
        # undeclared functions would silently be given the wrong types
        hf = os.path.join(VERIF, 'harness', self.h.file)
        with LOCK:
            new = (self.h.prop, self.h.name) not in CHECKED
            CHECKED.add((self.h.prop, self.h.name))
        if new:
            rc, so, se, _ = sh(['gcc', '-fsyntax-only', '-DVP_NATIVE'] + [x for x in self.cflags(hf, False) if x != '-w'] + [hf], timeout=60)
            if rc != 0:
                raise Inconclusive('harness does not compile:\n' + (so + se)[-3000:])
        objs = [self.obj('gb', ['goto-cc'], src, self.cflags(src, r)) for src, r in self.units()]
        gb = os.path.join(self.dir, 'h%d.gb' % self.narrow)
        rc, so, se, _ = sh(['goto-cc', '--function', 'harness'] + objs + ['-o', gb], timeout=120)
        if rc != 0:
            raise Inconclusive('goto-cc link failed:\n' + (so + se)[-3000:])
        rm = ['diag_errlookup', 'diag_data_dump'] + self.h.remove_bodies
        rm = [r for r in rm if r not in self.h.keep_bodies]
        gb0 = os.path.join(self.dir, 'h%d_1.gb' % self.narrow)
        ra = []
        for r in rm:
            ra += ['--remove-function-body', r]
        rc, so, se, _ = sh(['goto-instrument'] + ra + [gb, gb0], timeout=120)
        if rc != 0:
            raise Inconclusive('goto-instrument failed:\n' + (so + se)[-3000:])
        gb = gb0
        args = ['--generate-function-body', '(' + '|'.join(rm) + ')']
        gb2 = os.path.join(self.dir, 'h%d_2.gb' % self.narrow)
        rc, so, se, _ = sh(['goto-instrument'] + args + ['--generate-function-body-options', 'nondet-return', gb, gb2], timeout=120)
        if rc != 0:
            raise Inconclusive('goto-instrument failed:\n' + (so + se)[-3000:])
        self.res['build_s'] = round(time.time() - t, 2)
        return gb2

    def build_native(self, variant):
        exe = os.path.join(self.dir, 'native_' + variant)
        if os.path.exists(exe):
            return exe
        cc, extra = 'gcc', []
        san = 'address,bounds,null,integer-divide-by-zero'
        if self.h.overflow:
            san += ',signed-integer-overflow'
        if variant == 'asan':
            extra = ['-fsanitize=' + san, '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern']
        elif variant == 'zero':
            extra = ['-fsanitize=' + san, '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=zero', '-DVP_FILL=0']
        elif variant == 'msan':
            cc = 'clang'
            extra = ['-fsanitize=memory', '-DVP_MSAN', '-fno-sanitize-recover=all']
        sec = ['-ffunction-sections', '-fdata-sections']
        objs = [self.obj(variant, [cc, '-g', '-O0', '-DVP_NATIVE'] + sec + extra, src, self.cflags(src, r))
                for src, r in self.units()]
        rc, so, se, _ = sh([cc, '-g'] + extra + objs + self.h.native_libs +
                           ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-lm', '-lpthread', '-o', exe], timeout=120)
        if rc != 0:
            raise Inconclusive('native link failed:\n' + (so + se)[-3000:])
        return exe

    # ---- solver -------------------------------------------------------
    def cbmc(self, gb, unwind, props=None, trace=False, timeout=None):
        errs = []
        plan = [(s, timeout or (self.h.timeout if i == 0 else self.h.timeout2)) for i, s in enumerate(self.h.solvers)]
        if props is None and not trace:
            plan.insert(0, (plan[0][0], min(80, plan[0][1])))
        for i, (solver, to) in enumerate(plan):
            try:
                return self.cbmc1(gb, unwind, solver, props, trace, to)
            except Inconclusive as e:
                errs.append('%s: %s' % (solver, e))
                if i == 0 and 'timed out' in str(e) and props is None and not trace and not self.narrow:
                    self.narrowed(unwind)
                if self.left() < 20 or STOP.is_set():
                    break
        raise Inconclusive(' / '.join(errs))

    def narrowed(self, unwind):
        """No answer for all inputs: ask again with the symbolic inputs fixed to a pattern. This can find a violation, never show its absence."""
        asked = []
        for k in (1, 2, 3, 4):
            if self.left() < 60 or STOP.is_set():
                break
            self.narrow = k
            try:
                gb = self.build_goto()
                js, dt = self.cbmc1(gb, unwind, 'sat', None, False, 45)
                bad = [r for r in self.results(js) if r['status'] == 'FAILURE' and not r['description'].startswith('WITNESS: ')
                       and '.no-body.' not in r['property']]
                asked.append('pattern %d: %s' % (k, 'violated' if bad else 'held'))
                bad.sort(key=lambda r: (not r['description'].startswith('PROP: '), '.unwind.' in r['property']))
                if bad and self.try_replay(gb, unwind, bad[:3]):
                    raise Violated()
            except Inconclusive as e:
                asked.append('pattern %d: %s' % (k, str(e)[:80]))
            finally:
                self.narrow = 0
        self.res['narrowed'] = asked

    def cbmc1(self, gb, unwind, solver, props, trace, timeout):
        cmd = ['cbmc', gb, '--json-ui', '--verbosity', '8', '--unwind', str(unwind), '--unwinding-assertions',
               '--no-malloc-may-fail', '--drop-unused-functions',
               '--no-undefined-shift-check', '--no-pointer-primitive-check', '--object-bits', str(self.h.object_bits)]
        if not self.h.overflow:
            cmd += ['--no-signed-overflow-check']
        for u in self.h.unwindset:
            cmd += ['--unwindset', u]
        cmd += self.h.cbmc_args
        if solver == 'z3':
            cmd += ['--z3']
        elif solver == 'cadical':
            cmd += ['--sat-solver', 'cadical']
        if self.h.fs:
            cmd += ['--max-field-sensitivity-array-size', str(self.h.fs)]
        for p in props or []:
            cmd += ['--property', p]
        cmd += ['--trace'] if trace else ['--slice-formula']
        t = time.time()
        if self.tier == 'quick' and len(self.h.shapes) >= 8:
            timeout = min(timeout, 240)     # one case may not use up the time of the others
        to = max(5, min(timeout, self.left()))
        rc, so, se, timed = sh(cmd, timeout=to, mem=MEM_GB, stoppable=True)
        dt = time.time() - t
        if timed and STOP.is_set():
            raise Inconclusive('stopped')
        if timed:
            raise Inconclusive('cbmc timed out after %.0f s (unwind %d)' % (dt, unwind))
        try:
            js = json.loads(so)
        except ValueError:
            raise Inconclusive('cbmc produced no verdict (rc %d): %s' % (rc, (so[-600:] + se[-600:])))
        rs = self.results(js)
        failed = [r for r in rs if r['status'] == 'FAILURE' and not r['description'].startswith('WITNESS: ')]
        for r in rs:
            # (after a memory-safety failure CBMC leaves what follows it UNKNOWN)
            if r['status'] not in ('SUCCESS', 'FAILURE') and not failed:
                raise Inconclusive('solver answered %s for %s' % (r['status'], r['property']))
        return js, dt

    @staticmethod
    def stats(js):
        steps = vccs = clauses = 0
        solver = 0.0
        for m in js:
            t = m.get('messageText', '') if isinstance(m, dict) else ''
            g = re.search(r'size of program expression: (\d+) steps', t)
            if g:
                steps = int(g.group(1))
            g = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if g:
                vccs = int(g.group(1))
            g = re.search(r'(\d+) variables, (\d+) clauses', t)
            if g:
                clauses = max(clauses, int(g.group(2)))
            g = re.search(r'Runtime decision procedure: ([\d.e+-]+)s', t)
            if g:
                solver += float(g.group(1))
        return steps, vccs, clauses, solver

    @staticmethod
    def results(js):
        for m in js:
            if isinstance(m, dict) and 'result' in m:
                return m['result']
        msgs = [m.get('messageText', '') for m in js if isinstance(m, dict) and m.get('messageType') == 'ERROR']
        raise Inconclusive('cbmc gave no result: ' + ' | '.join(msgs)[-1500:])

    @staticmethod
    def vector(trace):
        v = []
        for st in trace:
            if st.get('stepType') == 'assignment' and st.get('lhs') == 'vp_nd_log' and \
                    st.get('sourceLocation', {}).get('function', '').startswith('nd_'):
                val = st.get('value', {})
                if 'binary' in val:
                    v.append(int(val['binary'], 2))
                else:
                    v.append(int(re.sub(r'[^0-9-]', '', val.get('data', '0'))) & ((1 << 64) - 1))
        return v

    def replay(self, vec, variants=('asan', 'zero', 'msan')):
        vf = os.path.join(self.dir, 'vec_%d.txt' % len(os.listdir(self.dir)))
        with open(vf, 'w') as f:
            f.write('\n'.join(str(x) for x in vec) + '\n')
        log = ''
        for var in variants:
            exe = self.build_native(var)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0',
                       UBSAN_OPTIONS='exitcode=98:halt_on_error=1', MSAN_OPTIONS='exitcode=98')
            rc, so, se, timed = sh([exe, vf], timeout=20, env=env, cwd=self.dir)
            log += '== %s: %s\n%s\n' % (var, 'HANG (20 s)' if timed else 'rc %d' % rc, se[-2500:])
            if timed:
                return 'hang', log, vf
            if rc == 77:
                return 'infeasible', log, vf
            if rc != 0:
                return 'fail', log, vf
        return 'ok', log, vf

    # ---- whole harness ---------------------------------------------------
    def go(self):
        res = self.res
        t0 = time.time()
        if STOP.is_set():
            res['status'] = 'skipped'
            return res
        try:
            gb = self.build_goto()
            unwind = self.unwind
            for attempt in range(3):
                js, dt = self.cbmc(gb, unwind, trace=False)
                rs = self.results(js)
                bad = [r for r in rs if r['status'] == 'FAILURE' and not r['description'].startswith('WITNESS: ')
                       and '.no-body.' not in r['property']]
                nobody = [r['property'] for r in rs if '.no-body.' in r['property'] and r['status'] == 'FAILURE']
                if nobody:
                    res['unmodelled'] = nobody
                unw = [r for r in bad if '.unwind.' in r['property'] or 'unwinding assertion' in r['description']
                       or '.recursion' in r['property']]
                if bad and len(unw) == len(bad) and attempt < 2 and self.left() > 60:
                    # maybe only the bound is too small: enlarge it first
                    unwind2 = unwind * 2 + 2
                    try:
                        if self.try_replay(gb, unwind, unw[:1]):
                            res['status'] = 'violation'
                            return res
                    except Inconclusive:
                        pass
                    unwind = unwind2
                    continue
                break
            steps, vccs, clauses, solver = self.stats(js)
            res.update(unwind=unwind, steps=steps, vccs=vccs, clauses=clauses, solver_s=round(solver, 3),
                       cbmc_s=round(dt, 2), obligations=len([r for r in rs if not r['description'].startswith('WITNESS')]))
            res['functions'] = self.functions(rs)
            wit = [r for r in rs if r['description'].startswith('WITNESS: ')]
            res['witnesses'] = len(wit)
            unk = [r for r in rs if r['status'] not in ('SUCCESS', 'FAILURE')]
            if bad:
                # assertions of the property first, then memory safety, then unwinding
                bad.sort(key=lambda r: (not r['description'].startswith('PROP: '), r in unw))
                if self.try_replay(gb, unwind, bad[:6]):
                    res['status'] = 'violation'
                    return res
                raise Inconclusive('solver counterexample(s) did not reproduce natively: ' +
                                   '; '.join('%s [%s]' % (b['property'], b['description']) for b in bad[:6]) +
                                   '\n' + res.get('replay_log', '')[-3000:])
            if unk and not bad:
                raise Inconclusive('undecided: ' + str(unk[:2]))
            dead = [r for r in wit if r['status'] != 'FAILURE']
            res['reached'] = sorted({r['description'][9:] for r in wit if r['status'] == 'FAILURE'})
            res['dead'] = sorted({r['description'][9:] for r in dead})
            wit = [r for r in wit if r['status'] == 'FAILURE']
            if not wit:
                raise Inconclusive('vacuity: no witness reachable: ' + ', '.join(r['description'] for r in dead))
            # validate the encoding: replay one solver-made witness input on the real code
            res['validated'] = 0
            if self.idx < self.h.validate and self.left() > 45:
                w = wit[0]
                try:
                    js2, dt2 = self.cbmc(gb, unwind, props=[w['property']], trace=True)
                    r2 = [r for r in self.results(js2) if r['property'] == w['property']][0]
                    vec = self.vector(r2.get('trace', []))
                    st, log, vf = self.replay(vec, ('asan',))
                    res['sample'] = dict(witness=w['description'][9:], inputs=vec[:64], n_inputs=len(vec), native=st)
                    if st in ('fail', 'hang'):
                        res['replay_log'] = log
                        res['vec'] = vec
                        res['failed'] = 'native run of a solver-made input fails: ' + log[-400:]
                        self.save(vec, res['failed'], log)
                        res['status'] = 'violation'
                        return res
                    if st == 'ok' and ('VP-REACHED ' + w['description'][9:]) in log:
                        res['validated'] = 1
                    else:
                        res['validation_note'] = log[-300:]
                except Inconclusive as e:
                    res['validation_note'] = str(e)[-300:]
            res['status'] = 'ok'
        except Violated:
            res['status'] = 'violation'
        except Inconclusive as e:
            res['status'] = 'skipped' if STOP.is_set() else 'inconclusive'
            res['why'] = str(e)
        except Exception as e:
            import traceback
            res['status'] = 'inconclusive'
            res['why'] = traceback.format_exc()
        finally:
            res['wall_s'] = round(time.time() - t0, 2)
        return res

    def functions(self, rs):
        fs = set()
        for r in rs:
            f = r.get('sourceLocation', {}).get('file', '')
            fn = r.get('sourceLocation', {}).get('function', '')
            if f.startswith(SC) and fn:
                fs.add(fn)
        return sorted(fs)

    def try_replay(self, gb, unwind, props):
        for r in props:
            if self.left() < 20:
                break
            js, _ = self.cbmc(gb, unwind, props=[r['property']], trace=True)
            rr = [x for x in self.results(js) if x['property'] == r['property'] and x['status'] == 'FAILURE']
            if not rr:
                continue
            vec = self.vector(rr[0].get('trace', []))
            st, log, vf = self.replay(vec)
            self.res['replay_log'] = self.res.get('replay_log', '') + '%s: %s\nvec %s\n%s' % (
                r['property'], st, vec[:200], log)
            if st in ('fail', 'hang'):
                what = '%s (%s) at %s:%s' % (r['description'], r['property'],
                                             os.path.basename(r.get('sourceLocation', {}).get('file', '?')),
                                             r.get('sourceLocation', {}).get('line', '?'))
                self.res['failed'] = what
                self.save(vec, what, log)
                return True
        return False

    def save(self, vec, what, log):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_%s_%d.txt' % (self.h.prop, self.h.name, self.idx))
        with open(p, 'w') as f:
            f.write('property %s harness %s\nfailed: %s\n' % (self.h.prop, self.name, what))
            f.write('inputs (in order of nd_* calls in harness/%s): %s\n' % (self.h.file, ' '.join(map(str, vec))))
            f.write('defs: %s %s\n' % (' '.join(self.dflags()), self.shape))
            f.write('native replay log:\n' + log)
        self.res['replay'] = p
        STOP.set()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    hs = [h for h in registry.ALL if h.prop == a.prop and (a.harness is None or h.name == a.harness)
          and (tier == 'thorough' or not h.thorough_only)]
    if not hs:
        print('no harness for', a.prop)
        return 2
    budget = a.budget or (780 if tier == 'quick' else 3 * 3600)
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    try:
        os.makedirs(os.path.join(scratch, 'objs'))
        TMP[0] = os.path.join(scratch, 'tmp')
        os.makedirs(TMP[0])
        runs = []
        for h in sorted(hs, key=lambda h: -h.cost):
            shapes = h.shapes + (h.shapes_t if tier == 'thorough' else [])
            for i, s in enumerate(shapes or [{}]):
                runs.append(Run(h, s, i, tier, scratch, t0 + budget, a.v))
        with ThreadPoolExecutor(max_workers=a.j) as ex:
            out = []
            for r in ex.map(lambda r: r.go(), runs):
                out.append(r)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('kept', scratch)
    # vacuity guard: every witness of a harness must be reached by some shape of it
    for hn in {r['hname'] for r in out}:
        rs = [r for r in out if r['hname'] == hn]
        if rs and all(r['status'] == 'ok' for r in rs):
            dead = set().union(*[set(r.get('dead', [])) for r in rs]) - set().union(*[set(r['reached']) for r in rs])
            if dead:
                rs[0]['status'] = 'inconclusive'
                rs[0]['why'] = 'vacuity: witness never reached in any shape: ' + ', '.join(sorted(dead))
    bad = [r for r in out if r['status'] == 'violation']
    inc = [r for r in out if r['status'] == 'inconclusive']
    for r in out:
        if not a.v and (r['status'] == 'skipped' or r['status'] == 'ok' and len(out) > 12):
            continue
        print('  %-28s %-12s unwind=%-4s steps=%-8s vcc=%-6s solver=%-7ss wall=%ss' % (
            r['harness'], r['status'], r.get('unwind'), r.get('steps'), r.get('vccs'), r.get('solver_s'), r.get('wall_s')))
        if r['status'] == 'inconclusive':
            print('     why:', r['why'][-3000:])
        if a.v and 'validation_note' in r:
            print('     note:', r['validation_note'])
        if a.v:
            print('     ', r.get('sample'))
    kf = [l.strip() for l in open(os.path.join(VERIF, 'known_findings.txt'))] \
        if os.path.exists(os.path.join(VERIF, 'known_findings.txt')) else []
    nviol = 0
    for l in kf:
        if l.startswith('known: property=%s ' % a.prop):
            print('KNOWN-FINDING: ' + l[len('known: '):])
    for r in bad:
        nviol += 1
        print('     failed:', r.get('failed'))
        print('VIOLATION property=%s replay=%s' % (a.prop, r.get('replay')))
    funcs = sorted({f for r in out for f in r.get('functions', [])})
    meta = registry.PROPS.get(a.prop, {})
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(
                  states=sum(r.get('steps', 0) for r in out),
                  transitions=sum(r.get('vccs', 0) for r in out),
                  traces_validated_against_impl=sum(r.get('validated', 0) for r in out),
                  samples=[r['sample'] for r in out if 'sample' in r] or [dict(harness=r['harness'], status=r['status']) for r in out],
                  explanation='states = symbolic-execution (SSA) steps encoded from the real code; transitions = '
                              'verification conditions generated and discharged; traces_validated = solver-made inputs '
                              're-run natively on the real code under ASan/UBSan reaching the same point',
                  obligations_decided=sum(r.get('obligations', 0) for r in out),
                  solver_seconds=round(sum(r.get('solver_s', 0) for r in out), 3),
                  functions_encoded=funcs,
                  harnesses=[{k: r.get(k) for k in ('harness', 'status', 'bounds', 'unwind', 'units', 'steps', 'vccs',
                                                    'clauses', 'solver_s', 'cbmc_s', 'wall_s', 'obligations', 'witnesses',
                                                    'validated', 'failed', 'why', 'unmodelled')} for r in out]),
              assumptions=meta.get('assumptions', []) + registry.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if a.harness is None:
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if bad:
        return 1
    if inc:
        for r in inc:
            print('  undecided:', r['harness'])
        if os.environ.get('VP_STRICT') or len(inc) > 0.4 * len(out):
            print('NO ANSWER: %d of %d cases undecided' % (len(inc), len(out)))
            return 2
        print('UNDECIDED: %d of %d cases; the property held on the others' % (len(inc), len(out)))
    print('OK property=%s: %d obligations in %d harness(es), %.1f s' % (
        a.prop, ev['coverage']['obligations_decided'], len(out), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
