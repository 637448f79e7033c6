"""What a rule module sees: building the program, recording obligations and violations."""
import json, os, pickle, re, signal, struct, time, traceback
import build
from absint import AnalysisError
from ir import IRError


class Broken(Exception):
    pass


class TimeLimit(BaseException):
    pass


class Stats:
    def __init__(self, nfuncs, ncalls, nstates, steps, nwiden):
        self.nfuncs, self.ncalls, self.nstates, self.steps, self.nwiden = nfuncs, ncalls, nstates, steps, nwiden


class Ctx:
    def __init__(self, pid, tier, here):
        self.pid = pid
        self.tier = tier
        self.here = here
        self.obligations = []      # (rule, instance, ok)
        self.violations = []
        self.interps = []
        self.controls = []
        self.modules = []
        self.notes = []
        self.printed = set()
        self._seen = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def build(self, units, driver=None, extra=(), post=('mem2reg',)):
        try:
            m = build.compile_ir(units, driver, extra, post)
        except build.BuildError as e:
            raise Broken(str(e))
        self.modules.append(m)
        return m

    def use(self, A):
        self.interps.append(A)
        return A

    def ob(self, rule, instance, ok, where=None, msg=None, key=None, path=()):
        """record one obligation; a failed one is a violation"""
        self.obligations.append((rule, instance, bool(ok)))
        if not ok:
            self.viol(rule, where, msg or instance, key or (rule + '|' + instance), path)
        return ok

    def viol(self, rule, where, msg, key, path=()):
        if isinstance(where, tuple):
            where = '%s:%d' % where
        k = (key, where)
        if k in self._seen:
            return
        self._seen.add(k)
        self.violations.append({'rule': rule, 'where': where or '?', 'msg': msg, 'key': '%s' % key, 'path': list(path)})

    def control(self, name, fired):
        """positive control: the rule must fire on this built-in broken instance"""
        self.controls.append(name)
        if not fired:
            raise Broken('positive control did not fire: ' + name)

    def anchor(self, cond, what):
        if not cond:
            raise Broken('anchor vanished: ' + what)
        return cond

    def pmap(self, items, fn, procs=None, limit=None):
        """fn(cx, item) for every item, in forked workers; what they record is merged in the order of the items.
        An item may use `limit` seconds of processor time: what takes many times longer than it does on the code as
        it was has lost the bound of a loop."""
        items = list(items)
        limit = limit or (1200 if self.thorough else 240)
        procs = min(procs or (os.cpu_count() or 1), len(items)) or 1
        wall = time.time()
        qr, qw = os.pipe()
        for i in range(len(items)):
            os.write(qw, struct.pack('<I', i))
        os.close(qw)

        def late(sig, frame):
            raise TimeLimit()
        kids = []
        for k in range(procs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    out = []
                    signal.signal(signal.SIGVTALRM, late)
                    while True:
                        n = os.read(qr, 4)
                        if len(n) < 4:
                            break
                        i = struct.unpack('<I', n)[0]
                        self.obligations, self.violations, self.interps, self.controls, self.notes = [], [], [], [], []
                        self._seen = set()
                        err = None
                        t0 = time.process_time()
                        if not self.thorough and time.time() - wall > 600:
                            out.append((i, [], [], [], [], ([], 0, 0, 0, 0), ('broken', 'no time left for ' + str(items[i])[:200])))
                            continue
                        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
                        try:
                            try:
                                fn(self, items[i])
                            finally:
                                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                        except TimeLimit:
                            err = ('late', str(items[i])[:200])
                        except Broken as e:
                            err = ('broken', str(e))
                        except BaseException:
                            err = ('error', traceback.format_exc())
                        if os.environ.get('PMAP_TIMES'):
                            os.write(2, ('%.1f %s\n' % (time.process_time() - t0, str(items[i])[:100])).encode())
                        st = (sorted({n for A in self.interps for n in A.nfuncs}), sum(A.ncalls for A in self.interps),
                              sum(A.nstates for A in self.interps), sum(A.steps for A in self.interps),
                              sum(A.nwiden for A in self.interps))
                        out.append((i, self.obligations, self.violations, self.controls, self.notes, st, err))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        os.close(qr)
        res = []
        lost = False
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                b = f.read()
            os.waitpid(pid, 0)
            try:
                res += pickle.loads(b)
            except Exception:
                lost = True
        errs = []
        for i, obs, vs, cs, ns, st, err in sorted(res, key=lambda x: x[0]):
            self.obligations += obs
            for v in vs:
                k = (v['key'], v['where'])
                if k not in self._seen:
                    self._seen.add(k)
                    self.violations.append(v)
            self.controls += cs
            self.notes += ns
            self.interps.append(Stats(*st))
            if err:
                errs.append(err)
        if lost:
            raise Broken('a worker of the analysis died')
        for e in errs:
            if e[0] == 'late':
                self.viol('bounded', '?', 'no bound on the work of an operation is found: ' + e[1], 'bounded|' + e[1])
        errs = [e for e in errs if e[0] != 'late']
        if errs:
            if errs[0][0] == 'error':
                raise Broken('worker failed:\n' + errs[0][1])
            raise Broken(errs[0][1])

    def finish_floor(self, n):
        if len(self.obligations) < n:
            raise Broken('only %d rule instances, %d expected' % (len(self.obligations), n))

    def load_known(self):
        out = {}
        p = os.path.join(self.here, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def evidence(self, mod, wall, new):
        level = getattr(mod, 'LEVEL', 'other')
        per = {}
        for r, i, ok in self.obligations:
            per.setdefault(r, []).append((i, ok))
        cov = {
            'explanation': mod.__doc__.strip() if mod.__doc__ else '',
            'obligations': len(self.obligations),
            'discharged': sum(1 for o in self.obligations if o[2]),
            'rules': {r: {'instances': len(l), 'failed': sum(1 for x in l if not x[1]),
                          'examples': [x[0] for x in l[:6]]} for r, l in per.items()},
            'units_analysed': sorted({u for m in self.modules for u in m.units}),
            'functions_in_program': sum(len(m.defined_names()) for m in self.modules),
            'functions_interpreted': len({n for A in self.interps for n in A.nfuncs}),
            'call_sites_interpreted': sum(A.ncalls for A in self.interps),
            'abstract_partitions': sum(A.nstates for A in self.interps),
            'abstract_steps': sum(A.steps for A in self.interps),
            'loops_widened': sum(A.nwiden for A in self.interps),
            'positive_controls': self.controls,
            'notes': self.notes,
            'checker_cmd': 'python3 check.py %s %s' % (self.pid, self.tier),
            'trusted_base': ['clang 18 front end and opt mem2reg', '/verif/engine abstract interpreter and its '
                             'models of libc/libuv/libstdc++ externals'],
        }
        return {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
                'level': level, 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(new),
                'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
