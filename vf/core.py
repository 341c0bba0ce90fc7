"""Verdicts, evidence and known findings, common to all checks."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time, traceback
from . import build
from .build import VERIF, NCPU, Tree, BuildError, clean_env, scratch, pmap

EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAXVIOL = 5


class Inconclusive(Exception):
    """The check could not decide (harness failure); reported as exit 2."""


class Check:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.counts = {}
        self.assumptions = []
        self.viol = []
        self.known_hit = []
        self.hang = None
        self.known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                if l.startswith('known: '):
                    d = json.loads(l[7:])
                    if d['property'] == pid:
                        self.known.append(d)
        self.replays = os.path.join(VERIF, 'replays', pid)

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough=None):
        """Case count of the current tier."""
        if self.quick:
            return quick
        return thorough if thorough is not None else quick * 10

    def sub(self, *tag):
        return random.Random('%s/%d/%s' % (self.pid, self.seed, '/'.join(map(str, tag))))

    # -- coverage ---------------------------------------------------------------
    def saw(self, key, nontrivial=True, n=1, sample=None):
        self.evaluations += n
        if nontrivial:
            if not isinstance(key, (bytes, str)):
                key = repr(key)
            if isinstance(key, str):
                key = key.encode('utf-8', 'surrogateescape')
            if len(key) > 16:
                key = hashlib.blake2b(key, digest_size=12).digest()
            self.seen.add(key)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # -- verdicts -----------------------------------------------------------------
    def violation(self, sig, detail, files=None):
        """sig identifies the failing input, call site or history."""
        for k in self.known:
            if k['sig'] == sig or (k.get('match') == 'prefix' and sig.startswith(k['sig'])):
                if k['sig'] not in [x['sig'] for x in self.known_hit]:
                    self.known_hit.append(k)
                return False
        if any(v[0] == sig for v in self.viol):
            return True
        if len(self.viol) < 200:
            self.viol.append((sig, detail, files or {}))
        return True

    def enough(self):
        return len(self.viol) >= 20

    def _replay(self, i, v):
        sig, detail, files = v
        h = hashlib.blake2b(sig.encode('utf-8', 'replace'), digest_size=5).hexdigest()
        d = os.path.join(self.replays, h)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'violation.txt'), 'w', errors='replace') as f:
            f.write('property: %s\nseed: %d\ntier: %s\nsignature: %s\n\n%s\n' %
                    (self.pid, self.seed, self.tier, sig, detail))
        for name, data in files.items():
            if isinstance(data, str):
                data = data.encode('utf-8', 'surrogateescape')
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
        return d

    def finish(self):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.seen),
               'rule': self.rule, 'samples': self.samples or ['(none)']}
        cov.update(self.extra)
        if self.counts:
            cov['counts'] = dict(sorted(self.counts.items()))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.%d' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs' %
              (self.pid, self.tier, self.seed, self.evaluations, len(self.seen), len(self.viol),
               time.time() - self.t0))
        if self.viol:
            for i, v in enumerate(self.viol[:MAXVIOL]):
                d = self._replay(i, v)
                print('  %s\n    %s' % (v[0][:300], v[1][:1500].replace('\n', '\n    ')))
                print('VIOLATION property=%s replay=%s' % (self.pid, d))
            return 1
        if self.evaluations == 0 or not self.seen:
            print('INCONCLUSIVE: nothing was observed')
            return 2
        return 0


def main(pid, fn, level='exploration'):
    ck = Check(pid, level)

    def late():
        # a run slowed down by hanging programs still reports what it has found
        if ck.hang and not ck.viol:
            ck.violation('hang', 'did not end: ' + ck.hang)
        if ck.viol:
            rc = ck.finish()
            sys.stdout.flush()
            shutil.rmtree(scratch(), ignore_errors=True)
            os._exit(rc)
    if ck.quick:
        t = threading.Timer(600, late)
        t.daemon = True
        t.start()
    try:
        fn(ck)
        rc = ck.finish()
    except Inconclusive as e:
        print('INCONCLUSIVE %s: %s' % (pid, e))
        rc = ck.finish() if ck.viol else 2
    except BuildError as e:
        print('BUILD-ERROR %s: %s' % (pid, e))
        rc = ck.finish() if ck.viol else 2
    except Exception:
        traceback.print_exc()
        # a violation already found stands even when the harness failed later
        rc = ck.finish() if ck.viol else 2
    sys.stdout.flush()
    return rc


# ---- running things ---------------------------------------------------------

class Result:
    __slots__ = ('rc', 'out', 'err', 'timed_out')

    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out


def run(cmd, stdin=b'', timeout=20, cwd=None, env=None, retry=True, preexec=None):
    """Runs a program; a timeout is retried once, alone and with twice the budget."""
    for attempt in (0, 1):
        try:
            p = subprocess.Popen(cmd, cwd=cwd, env=env or clean_env(), stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                                 preexec_fn=preexec)
        except OSError as e:
            raise Inconclusive('cannot start %s: %s' % (cmd, e))
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            return Result(p.returncode, out, err, False)
        except subprocess.TimeoutExpired:
            kill_group(p)
            out, err = p.communicate()
            if attempt == 1 or not retry:
                return Result(p.returncode, out, err, True)
            timeout *= 2


def kill_group(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    try:
        p.kill()
    except OSError:
        pass


def how(r):
    if r.timed_out:
        return 'did not end'
    if r.rc < 0:
        return 'killed by signal %d' % -r.rc
    return 'exit %d' % r.rc


def hx(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogatepass')
    return b.hex() if b else '-'


def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)


class Driver:
    """A compiled Myrddin driver reading one command per line and answering with one line each."""

    def __init__(self, ck, tree, name, flags=(), extra_src=(), local=(), link=(), sub=''):
        # local: sources of the repository that no library includes, used as "name"
        self.ck, self.tree, self.name = ck, tree, name
        self.dir = os.path.join(scratch(), 'drv-%s-%s%s' % (os.path.basename(tree.root), name, sub))
        os.makedirs(self.dir, exist_ok=True)
        objs = []
        for f in ('dio.myr',) + tuple(local) + tuple(extra_src) + (name + '.myr',):
            src = os.path.join(VERIF, 'drivers', f)
            if f in local:
                src = os.path.join(tree.root, f)
                uses = os.path.join(tree.root, 'obj', os.path.dirname(f))
                for u in os.listdir(uses):
                    if u.endswith('.use') and not os.path.exists(os.path.join(self.dir, u)):
                        shutil.copy(os.path.join(uses, u), self.dir)
                f = os.path.basename(f)
            dst = os.path.join(self.dir, f)
            with open(src) as a, open(dst, 'w') as b:
                b.write(a.read())
            obj = dst[:-4] + '.o'
            p = tree.compile(dst, obj, flags=flags, cwd=self.dir)
            if p.returncode != 0:
                raise BuildError('driver %s does not compile:\n%s' % (f, p.stdout.decode('latin1')[-3000:]))
            objs.append(obj)
        self.exe = os.path.join(self.dir, name)
        p = tree.link(self.exe, objs, extra=link)
        if p.returncode != 0:
            raise BuildError('driver %s does not link:\n%s' % (name, p.stdout.decode('latin1')[-3000:]))

    def batch(self, cmds, timeout=60, cwd=None, env=None, preexec=None):
        """Returns a list with one entry per command: the output line (str) or an exception text
        ('!crash ...') for the command at which the driver died."""
        res = []
        i = 0
        crashes = 0
        while i < len(cmds):
            r = run([self.exe], '\n'.join(cmds[i:]).encode('ascii') + b'\n', timeout=timeout,
                    cwd=cwd or self.dir, env=env, retry=not getattr(self, 'hung', 0), preexec=preexec)
            lines = r.out.decode('latin1').split('\n')
            lines = lines[:-1] if lines and lines[-1] == '' else lines[:-1]
            lines = [l.rstrip(' ') for l in lines]
            n = min(len(lines), len(cmds) - i)
            res += lines[:n]
            i += n
            if i < len(cmds):
                res.append('!crash %s %s' % (how(r), r.err.decode('latin1')[-600:]))
                i += 1
                crashes += 1
                if r.timed_out:
                    self.hung = 1
                    self.ck.hang = self.ck.hang or '%s: %s' % (self.name, cmds[i - 1][:2000])
                    crashes += 1
                if crashes > 3:
                    res += ['!skipped'] * (len(cmds) - i)
                    break
            elif r.rc != 0 or r.timed_out:
                # it died after the last answer
                res[-1] = '!crash after answering %s %s' % (how(r), r.err.decode('latin1')[-600:])
        return res

    def run(self, cmds, timeout=60, chunk=None, par=None, cwd=None, env=None):
        par = par or NCPU
        if chunk is None:
            chunk = max(1, (len(cmds) + par - 1) // par)
        parts = [cmds[i:i + chunk] for i in range(0, len(cmds), chunk)]
        out = []
        for r in pmap(lambda c: self.batch(c, timeout, cwd, env), parts, par):
            out += r
        return out

    def check(self, cases, sigf=None, timeout=60, kind=None, samples=2, stateful=None, env=None):
        """cases: list of (command, expected) where expected is a string or a function of the
        answer returning None or what is wrong.  Records coverage and violations."""
        ck = self.ck
        outs = self.run([c for c, _ in cases], timeout=timeout, env=env)
        nsamp = 0
        for (cmd, exp), out in zip(cases, outs):
            if out == '!skipped':
                ck.count('skipped after crashes')
                continue
            op = cmd.split(' ', 1)[0]
            ck.count('op ' + op)
            if out.startswith('!crash'):
                bad = out[1:]
            elif callable(exp):
                try:
                    bad = exp(out)
                except (ValueError, IndexError, KeyError) as e:
                    bad = 'malformed answer (%s)' % e
            else:
                bad = None if out == exp else 'expected %s' % exp[:400]
            sm = None
            if nsamp < samples and ck.rng.random() < 0.05:
                sm = {'command': cmd[:200], 'answer': out[:200]}
                nsamp += 1
            ck.saw(self.name + cmd, sample=sm)
            if bad:
                sig = sigf(cmd, out) if sigf else '%s: %s' % (self.name, cmd[:300])
                ck.violation(sig, 'command: %s\nanswer:  %s\n%s' % (cmd[:2000], out[:2000], bad),
                             {'commands.txt': cmd + '\n'})
        return outs
