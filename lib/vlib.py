"""Orchestration shared by all checks: TLC runs, drivers, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def known_findings(prop):
    """{identifier: description} of the findings listed as known"""
    res = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) (\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class MachineryError(Exception):
    pass


class Tlc(object):
    """Outcome of one TLC run."""

    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r'(\d+) states generated, (\d+) distinct', out[-20000:])
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        if not m:
            m = re.search(r'The number of states generated: (\d+)', out[-20000:])
            if m:
                self.generated = self.distinct = int(m.group(1))
        self.ok = rc == 0

    def printed(self, tag):
        """Values printed with PrintT(<<tag, ToJson(x)>>), JSON-decoded."""
        res = []
        pat = re.compile(r'^<<"%s", "(.*)">>$' % re.escape(tag))
        for line in self.out.splitlines():
            m = pat.match(line)
            if m:
                res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        return res


def tlc(module, cfg=None, env=None, args=(), timeout=800, workers=1, heap='6g', scratch=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    meta = tempfile.mkdtemp(prefix='tlcmeta', dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(args) + \
          [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out, rc = p.stdout.decode('utf-8', 'replace'), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode('utf-8', 'replace') + '\nTLC TIMEOUT\n', 124
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, out, time.time() - t)


class Check(object):
    """One run of one property's check."""

    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 200 << 20:
                base = None
        self.scratch = tempfile.mkdtemp(prefix='kzcheck_%s_' % prop, dir=base)
        self.tmp = tempfile.mkdtemp(prefix='kzcheck_%s_' % prop)

    # -- specification side ------------------------------------------------
    def model(self, module, cfg=None, expect_ok=True, **kw):
        """Model-check; a violated property of the model itself is an error of
        the machinery (the model does not depend on /repo)."""
        r = tlc(module, cfg, **kw)
        if not r.ok and expect_ok:
            raise MachineryError('model check of %s/%s failed:\n%s' % (module, cfg, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'module': module, 'cfg': cfg or module, 'states': r.distinct,
                            'transitions': r.generated, 'wall_s': round(r.wall, 1)})
        return r

    # -- implementation side -----------------------------------------------
    def together(self, fns):
        """Run the functions at the same time; their results in order."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            return [f.result() for f in [ex.submit(fn) for fn in fns]]

    def drive(self, driver, outname, args=(), inp=None, timeout=600, env=None):
        """Run a driver on the real code.  Returns the trace path."""
        out = os.path.join(self.tmp, outname)
        work = tempfile.mkdtemp(prefix='drv', dir=self.scratch)
        cmd = [PY, '-B', os.path.join(VERIF, 'drivers', driver), '--out', out, '--work', work,
               '--tier', TIER, '--seed', str(SEED), '--prop', self.prop] + list(args)
        if inp is not None:
            ip = os.path.join(self.tmp, outname + '.in')
            with open(ip, 'w') as f:
                for x in inp:
                    f.write(json.dumps(x) + '\n')
            cmd += ['--in', ip]
        e = dict(os.environ)
        e['PYTHONPATH'] = os.path.join(VERIF, 'lib') + ':' + os.path.join(VERIF, 'drivers')
        e['PYTHONHASHSEED'] = '0'
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e.update(env or {})
        try:
            p = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
            log, rc = p.stdout.decode('utf-8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as x:
            log, rc = (x.stdout or b'').decode('utf-8', 'replace') + '\nDRIVER TIMEOUT', 124
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for line in log.splitlines():
            if line.startswith('SUMMARY '):
                s = json.loads(line[8:])
                for k, v in s.items():
                    if isinstance(v, int) and not isinstance(v, bool):
                        self.notes[k] = self.notes.get(k, 0) + v
                    else:
                        self.notes.setdefault(k, v)
        if rc != 0:
            self.violation('driver %s did not finish on the real code (rc=%s)' % (driver, rc),
                           {'cmd': cmd, 'log': log[-6000:]})
        return out

    def validate(self, module, trace, cfg=None, timeout=800, heap='6g'):
        """Validate a recorded trace against a trace specification."""
        if not os.path.exists(trace):
            if not self.violations:
                self.violation('no trace was recorded', {'trace': trace})
            return None
        with open(trace) as f:
            lines = f.read().splitlines()
        if not lines:
            if not self.violations:
                self.violation('empty trace', {'trace': trace})
            return None
        r = tlc(module, cfg, env={'TRACE': trace, 'PROP': self.prop}, timeout=timeout, heap=heap)
        v = r.printed('VERDICT')
        if not v:
            if 'TLC TIMEOUT' in r.out or 'OutOfMemory' in r.out:
                raise MachineryError('TLC gave no verdict: ' + r.out[-2000:])
            m = re.findall(r'l = (\d+)', r.out)
            at = int(m[-1]) if m else None
            self.violation('trace is not a behaviour of %s (evaluation failed%s)' % (
                module, ' after event %d' % at if at else ''),
                {'module': module, 'event': json.loads(lines[at - 1]) if at and at <= len(lines) else None,
                 'tlc': r.out[-3000:]})
            return r
        self.states += r.distinct
        self.transitions += r.generated
        nr = sum(1 for x in lines if '"ev": "reset"' in x or '"ev":"reset"' in x)
        self.traces += max(nr, 1)
        self.events += len(lines)
        self.models.append({'module': module, 'cfg': cfg or module, 'states': r.distinct,
                            'transitions': r.generated, 'wall_s': round(r.wall, 1),
                            'events': len(lines)})
        step = max(1, len(lines) // 3)
        for x in lines[step // 2::step][:2]:
            self.samples.append(x if len(x) < 1500 else x[:1500] + '...')
        bad = v[-1]
        for b in bad.get('bad', []):
            line, clause = b[0], b[1]
            ev = lines[line - 1] if 0 < line <= len(lines) else ''
            # the history that leads there, back to the last reset
            start = line - 1
            while start > 0 and '"reset"' not in lines[start - 1]:
                start -= 1
                if line - start > 60:
                    break
            self.violation(clause, {'module': module, 'line': line, 'clause': b,
                                    'event': ev[:20000],
                                    'history': [x[:4000] for x in lines[start:line]]})
        listed = known_findings(self.prop)
        for k in bad.get('known', []):
            if k in listed:
                self.known.append(k + ' ' + listed[k])
            else:
                self.violation('finding %s is not in known_findings.txt' % k, {'module': module, 'finding': k})
        return r

    # -- verdict -----------------------------------------------------------
    def violation(self, clause, detail):
        self.violations.append((clause, detail))

    def finish(self, technique=None):
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'models': self.models, 'samples': self.samples[:6], 'driver': self.notes}
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
              'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': len(self.violations)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(json.dumps(x) for x in self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, json.loads(k)))
        rc = 0
        if self.violations:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (clause, detail) in enumerate(self.violations[:5]):
                path = os.path.join(rd, '%s_%d.json' % (self.prop, i))
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'clause': clause, 'detail': detail,
                               'seed': SEED, 'tier': TIER}, f, indent=1)
                print('# %s: %s' % (self.prop, str(clause)[:300]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc = 1
        else:
            print('OK property=%s states=%d traces=%d events=%d wall=%.1fs' % (
                self.prop, self.states, self.traces, self.events, wall))
        shutil.rmtree(self.scratch, ignore_errors=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc
